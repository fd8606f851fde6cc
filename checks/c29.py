"""GOES-R grids: nbspgoesrgis -A (regridding) and nbspgoesrasc (cutting)."""
import math, os
from pbt import Outcome
import c28

NODATA = -1


def asc(data):
    """(ncols, nrows, xll, yll, cell, nodata, rows) of an asc file"""
    lines = data.decode('latin-1').split('\n')
    if lines.pop() != '':
        raise ValueError('incomplete last line')
    h = {}
    for k in ('ncols', 'nrows', 'xllcorner', 'yllcorner', 'cellsize', 'nodata_value'):
        a, v = lines.pop(0).split(' ')
        if a != k:
            raise ValueError('%s instead of %s' % (a, k))
        h[k] = float(v) if k in ('xllcorner', 'yllcorner', 'cellsize') else int(v)
    rows = [[int(v) for v in l.split(' ')] for l in lines]
    if len(rows) != h['nrows'] or any(len(r) != h['ncols'] for r in rows):
        raise ValueError('%d rows of %s values, the header says %d rows of %d' % (len(rows), sorted({len(r) for r in rows}), h['nrows'], h['ncols']))
    return h['ncols'], h['nrows'], h['xllcorner'], h['yllcorner'], h['cellsize'], h['nodata_value'], rows


class Check:
    pid = 'C29'
    title = 'GOES-R grids hold at each place the pixel seen there; cuts are exact'
    parts = ['cli']
    drivers = []
    quick, thorough = 2500, 80000
    rule = ('a case counts as non-trivial when an image was regridded to at least four cells, a grid was cut, or an impossible rectangle had to be '
            'refused')
    assumptions = ['images in which no pixel is exactly at the limb of the Earth', 'grids of at most some ten thousand cells',
                   'in a cell within a third of a pixel of the border between pixels any of them counts']

    def gen(self, src):
        if src.bool(0.5):
            return self.gencut(src)
        p = c28.image(src, big=src.bool(0.1), wide=src.bool(0.4))
        p['tool'] = 'regrid'
        p['order'], p['lovt'] = src.int(0, 3), 'd'
        p['llur'] = None
        if src.bool(0.5):
            # fractions of the default rectangle (hundredths), or amounts to shrink it by
            p['llur'] = dict(t=src.bool(0.4), a=[src.wpick((6, src.int(0, 40)), (1, -src.int(1, 30)), (1, src.int(41, 120))) for i in range(4)])
            if src.bool(0.04):
                p['llur']['text'] = src.pick(['', '1,2,3', 'a,b,c,d', '-70,10,-60', '-70 10 -60 20'])
        return p

    def gencut(self, src):
        p = dict(tool='cut', nx=src.int(1, 14), ny=src.int(1, 14))
        p['cell'] = src.pick(['0.250000', '0.500000', '1.000000', '0.125000', '0.020000', '0.031250', '0.100000'])
        p['xll'], p['yll'] = src.int(-720, 400) / 4.0, src.int(-340, 200) / 4.0
        p['seed'] = src.int(0, 10 ** 6)
        boxes = []
        for i in range(src.int(1, 4)):
            b = dict(x=sorted([src.int(0, 4 * p['nx']), src.int(0, 4 * p['nx'])]), y=sorted([src.int(0, 4 * p['ny']), src.int(0, 4 * p['ny'])]), idx=src.int(0, 99))
            if src.bool(0.25):
                b['x'] = [0, 4 * p['nx']]
            if src.bool(0.25):
                b['y'] = [0, 4 * p['ny']]
            b['odd'] = src.pick(['out', 'reversed', 'short', 'words', 'index', 'negative']) if src.bool(0.08) else None
            b['side'] = src.int(0, 3)
            boxes.append(b)
        p['boxes'] = boxes
        p['stdin'] = src.bool(0.6)
        p['filler'] = src.bool(0.3)
        p['q'] = src.bool(0.5)
        p['prefix'] = src.pick([None, 'zone', 'a', ''])
        p['suffix'] = src.pick([None, '.file.asc', '', '.x'])
        return p

    # -------------------------------------------------------------- cutting
    def cut(self, p, ctx):
        d = ctx.dir()
        nx, ny, cell = p['nx'], p['ny'], float(p['cell'])
        vals = [[(p['seed'] + 7 * i + 131 * j + (i * j) % 5) % 257 - 1 for i in range(nx)] for j in range(ny)]
        with open(d + '/in.asc', 'w') as f:
            f.write('ncols %d\nnrows %d\nxllcorner %f\nyllcorner %f\ncellsize %s\nnodata_value -1\n' % (nx, ny, p['xll'], p['yll'], p['cell']))
            for r in vals:
                f.write(' '.join(map(str, r)) + '\n')
        exact = p['cell'] not in ('0.020000', '0.100000')
        boxes, lines, stop = p['boxes'] if p['stdin'] else p['boxes'][:1], [], False
        pre, suf = 'z' if p['prefix'] is None else p['prefix'], '.asc' if p['suffix'] is None else p['suffix']
        want, order, failed = {}, [], False
        for b in boxes:
            # quarters of a cell; a grid whose cell is no sum of powers of two is not asked for its very edge
            xs, ys = [v / 4.0 for v in b['x']], [v / 4.0 for v in b['y']]
            if not exact:
                xs = [min(max(v, 0.1), nx - 0.1) for v in xs]
                ys = [min(max(v, 0.1), ny - 0.1) for v in ys]
            if b['odd'] == 'out':
                if b['side'] == 0:
                    xs[0] = -1.5
                elif b['side'] == 1:
                    ys[0] = -1.5
                elif b['side'] == 2:
                    xs[1] = nx + 1.5
                else:
                    ys[1] = ny + 1.5
            odd = b['odd']
            if odd == 'reversed':
                if b['side'] % 2:
                    xs.reverse()
                else:
                    ys.reverse()
                if xs[0] <= xs[1] and ys[0] <= ys[1]:
                    odd = None
            x1, x2 = [p['xll'] + cell * v for v in xs]
            y1, y2 = [p['yll'] + cell * v for v in ys]
            idx = 100 + b['idx'] if odd == 'index' else -1 - b['idx'] if odd == 'negative' else b['idx']
            s = '%f,%f,%f,%f,%d' % (x1, y1, x2, y2, idx)
            if odd == 'short':
                s = s.rsplit(',', 1 + b['side'])[0]
            if odd == 'words':
                s = 'box ' + s
            if p['filler']:
                lines += ['', '# comment']
            lines.append(s)
            if failed:
                continue
            if odd:
                failed = True
                continue
            fn = '%s%02d%s' % (pre, idx, suf)
            want[fn] = (xs, ys, x1, y1)
            order.append(fn)
        args = [ctx.cli('nbspgoesrasc')] + ['-q'] * p['q']
        args += ['-p', p['prefix']] if p['prefix'] is not None else []
        args += ['-s', p['suffix']] if p['suffix'] is not None else []
        inp = b''
        if p['stdin']:
            inp = ('\n'.join(lines) + '\n').encode()
        else:
            args += ['-e', [l for l in lines if l and l[0] != '#'][0]]
        r = ctx.exec(args + ['in.asc'], stdin=inp, cwd=d)
        tags = ['cut', 'stdin' if p['stdin'] else 'argument', 'refused' if failed else 'accepted']
        show = '%s < %r' % (args[1:], inp[:200])
        key = 'cut %d %d %s' % (nx, ny, ' '.join(lines))
        if r.crash:
            return Outcome('nbspgoesrasc %s: %s' % (show, r.crash), True, key, tags)
        if (r.code != 0) != failed:
            return Outcome('nbspgoesrasc %s: exit code %d, %s' % (show, r.code, r.err[:200]), True, key, tags)
        have = sorted(n for n in os.listdir(d) if n != 'in.asc')
        if have != sorted(want):
            return Outcome('nbspgoesrasc %s: made %s, expected %s' % (show, have, sorted(want)), True, key, tags)
        if r.out.decode('latin-1').split('\n')[:-1] != (order if p['q'] else []):
            return Outcome('nbspgoesrasc %s: wrote %r, expected the names %s' % (show, r.out[:200], order), True, key, tags)
        for fn in want:
            bad = self.window(vals, nx, ny, cell, want[fn], open(d + '/' + fn, 'rb').read())
            if bad:
                return Outcome('nbspgoesrasc %s: %s %s' % (show, fn, bad), True, key, tags)
        return Outcome(None, True, key, tags)

    def window(self, vals, nx, ny, cell, box, data):
        """None when the file has the cells that the box touches"""
        xs, ys, x1, y1 = box
        try:
            w, h, xll, yll, c, nod, rows = asc(data)
        except (ValueError, IndexError) as e:
            return 'is no good grid: %s' % e
        if abs(c - cell) > 1e-6 or nod != NODATA:
            return 'has the cell size %s and nodata %s' % (c, nod)
        if abs(xll - x1) > cell * 1.01 or abs(yll - y1) > cell * 1.01:
            return 'has its corner at %f %f, expected %f %f' % (xll, yll, x1, y1)

        def first(v, n):      # a value at the border between two cells can count with either
            return {min(max(int(math.floor(v + e)), 0), n - 1) for e in (-1e-3, 1e-3)}
        i1, i2 = first(xs[0], nx), first(xs[1], nx)
        j1, j2 = first(ny - ys[1], ny), first(ny - ys[0], ny)
        for a in i1:
            for b in i2:
                for s in j1:
                    for t in j2:
                        if [r[a:b + 1] for r in vals[s:t + 1]] == rows:
                            return None
        return 'has %d x %d values %s, expected the columns %s-%s of the rows %s-%s' % (w, h, rows[:3], i1, i2, j1, j2)

    # ----------------------------------------------------------- regridding
    def run(self, p, ctx):
        if p['tool'] == 'cut':
            return self.cut(p, ctx)
        x, y, pts, cmi, levels = c28.decode(p)
        if c28.unclear(pts) or len(set(x)) < 2 or len(set(y)) < 2:
            return Outcome(None, False, 'unclear', ['unclear'])
        d = ctx.dir()
        with open(d + '/in.nc', 'wb') as f:
            f.write(c28.make(p))
        opt = [o for o in [c28.KINDS[p['kind']][2]] if o]
        exe = ctx.cli('nbspgoesrgis')
        tags = ['regrid', p['kind'], 'space' if any(q[0] < 0 for q in pts) else 'earth']
        # the default rectangle: that of the tool, which is decided by C28
        r = ctx.exec([exe, '-O', '-V', '-n', 'b'] + opt + ['in.nc'], cwd=d)
        if r.crash or r.code:
            return Outcome('nbspgoesrgis failed: %s' % (r.crash or r.err[:200]), True, 'fail', tags)
        info = dict(l.split(': ') for l in open(d + '/b.info').read().splitlines())
        bb, ll = [float(v) for v in info['bb'].split()], [float(v) for v in info['llur'].split()]
        csv = [l.split(',') for l in open(d + '/b.csv').read().splitlines()]
        got = iter([int(l[2]) for l in csv])
        lev = [next(got) if q[0] > 0 else None for q in pts]
        background = all(not v for v in lev)
        cell = min((bb[2] - bb[0]) / (p['nx'] - 1), (bb[3] - bb[1]) / (p['ny'] - 1))
        if any(abs(q[1]) > 179.9 for q in pts if q[0] > 0) or not csv or not 1e-3 < cell < 60:
            return Outcome(None, False, 'unclear', ['unclear'])
        args, rect, word = ['-a', 'g.asc'], ll, None
        if p['llur']:
            a, w, h = p['llur']['a'], ll[2] - ll[0], ll[3] - ll[1]
            if background:
                w, h = 10.0, 10.0
            if p['llur']['t'] and not background:
                t = [round(v / 100.0 * s, 3) for v, s in zip(a, (w, h, w, h))]
                rect = [ll[0] + t[0], ll[1] + t[1], ll[2] - t[2], ll[3] - t[3]]
                args.append('-t')
            else:
                b = bb if background else ll
                t = rect = [round(v, 3) for v in (b[0] + a[0] / 100.0 * w, b[1] + a[1] / 100.0 * h, b[2] - a[2] / 100.0 * w, b[3] - a[3] / 100.0 * h)]
            word = p['llur'].get('text')
            args += ['-s', word if word is not None else '%.3f,%.3f,%.3f,%.3f' % tuple(t)]
        w, h = rect[2] - rect[0], rect[3] - rect[1]
        empty = w < 0 or h < 0
        key = 'regrid %s %d %d %s %s' % (p['kind'], p['nx'], p['ny'], ' '.join(args), p['x']['raw'][0])
        if not (background and rect is ll) and (min(abs(w), abs(h)) < 0.01 or not empty and w / cell * (h / cell) > 40000):
            return Outcome(None, False, 'unclear', ['unclear'])
        r = ctx.exec([exe] + args + opt + ['in.nc'], cwd=d)
        show = 'nbspgoesrgis %s' % ' '.join(args)
        if r.crash:
            return Outcome('%s: %s' % (show, r.crash), True, key, tags)
        refuse = word is not None or empty
        tags.append('refused' if refuse else 'rectangle' if p['llur'] else 'default')
        if refuse:
            bad = None
            if r.code == 0 or os.path.exists(d + '/g.asc'):
                bad = '%s: the rectangle was taken (limits %s)' % (show, rect)
            return Outcome(bad, True, key, tags)
        if r.code:
            return Outcome('%s: exit code %d, %s' % (show, r.code, r.err[:200]), True, key, tags)
        try:
            n, m, xll, yll, c, nod, rows = asc(open(d + '/g.asc', 'rb').read())
        except (ValueError, IndexError) as e:
            return Outcome('%s: no good grid: %s' % (show, e), True, key, tags)
        bad = None
        if abs(c - cell) > 2e-6 + 1e-4 * cell or nod != NODATA:
            bad = 'has the cell size %f and nodata %d, expected %f and -1' % (c, nod, cell)
        elif abs(xll - rect[0]) > 1e-4 or abs(yll - rect[1]) > cell:
            bad = 'has its corner at %f %f, expected %f %f' % (xll, yll, rect[0], rect[1])
        elif not all(math.floor(v / cell - 2e-3 * (1 + v / cell / 100)) + 1 <= k <= math.floor(v / cell + 2e-3 * (1 + v / cell / 100)) + 1
                     for v, k in ((w, n), (h, m))):
            bad = 'has %d x %d cells of %f for the rectangle %s' % (n, m, cell, rect)
        if bad:
            return Outcome('%s: the grid %s' % (show, bad), True, key, tags)
        bad, hit = self.compare(p, x, y, lev, rect, cell, rows)
        tags.append('hits' if hit else 'all nodata')
        return Outcome(bad and '%s: %s' % (show, bad), n * m >= 4, key, tags)

    def compare(self, p, x, y, lev, rect, cell, rows):
        nx, ny = p['nx'], p['ny']
        dx, dy = (x[-1] - x[0]) / (nx - 1), (y[0] - y[-1]) / (ny - 1)
        # how far, in pixels, the single precision and the rounded limits can move a place
        t = 0.1 + 1.2e-5 / min(abs(dx), abs(dy))
        hit = 0
        for j, row in enumerate(rows):
            for i, v in enumerate(row):
                lon, lat = rect[0] + cell * i, rect[3] - cell * j
                if abs(lat) >= 89.9:
                    continue
                vis, a, b = c28.scan(lon, lat, p['lov'])
                ok = set()
                if vis < 2e-3:
                    ok.add(NODATA)
                if vis > -2e-3:
                    u, s = (a - x[0]) / dx, (y[0] - b) / dy
                    if u < t or s < t or u > nx - 1 - t or s > ny - 1 - t:
                        ok.add(NODATA)
                    if -t <= u <= nx - 1 + t and -t <= s <= ny - 1 + t:
                        for c in {math.floor(u - t + 0.5), math.floor(u + t + 0.5)}:
                            for r in {math.floor(s - t + 0.5), math.floor(s + t + 0.5)}:
                                k = min(max(r, 0), ny - 1) * nx + min(max(c, 0), nx - 1)
                                ok |= {lev[k]} if lev[k] is not None else set(range(-1, 256))
                hit += v != NODATA
                if v not in ok:
                    return 'the cell %d of row %d (%.4f %.4f) has %d, expected %s' % (i, j, lon, lat, v, sorted(ok)), hit
        return None, hit
