"""nbspradgis: the cells of a radar product as csv, shapefile, dbf and info files."""
import bz2, math, os, struct, time
from pbt import Outcome
from c23 import nids_header, GPK

KM = 111.111
RVEL = [-65, -64, -50, -36, -26, -20, -10, -1, 0, 10, 20, 26, 36, 50, 64, 65]
NXP = [0, 5, 10, 25, 50, 75, 100, 125, 150, 175, 200, 250, 300, 400, 600, 800]
SRVEL = [-65, -50, -40, -30, -22, -10, -5, -1, 0, 5, 10, 22, 30, 40, 50, 65]
LIMITS = {19: (1, 96), 20: (1, 96), 94: (1, 96), 27: (-64, 64), 99: (-64, 64), 78: (5, 800), 80: (5, 800), 56: (-50, 50)}
AF1F, D16 = 0xaf1f, 16


def level(packet, code, mode, run):
    """The level of a code, 'bad' when the product cannot be decoded."""
    if packet == AF1F:
        if code in (19, 20):
            return run * 5 if mode == 2 else run * 4 - 32 if mode == 1 else 'bad'
        return RVEL[run] if code == 27 else NXP[run] if code in (78, 80) else SRVEL[run] if code == 56 else 'bad'
    if code == 94:
        return run // 2 - 32 if mode in (1, 2) else 'bad'
    return int(0.5 * (run - 1) - 63.5) if code == 99 else 'bad'


def cells(p):
    """[(r1, r2, theta1, theta2, code, level)] of a product, or 'bad'."""
    out = []
    lo, hi = LIMITS[p['code']]
    lo = lo if p['M'] is None else p['M']
    hi = hi if p['N'] is None else p['N']
    for start, delta, runs in p['radials']:
        t1 = start / 10.0
        dd = delta / 10.0
        t2 = t1 + dd
        bins = 0
        for n, code in runs:
            if p['packet'] == AF1F and n == 0:
                continue
            r1 = bins * p['scale'] / 1000.0
            bins += n
            r2 = bins * p['scale'] / 1000.0
            if p['packet'] == D16 and code < 2:
                continue
            lv = level(p['packet'], p['code'], p['mode'], code)
            if lv == 'bad':
                return 'bad'
            if lv < lo or lv > hi:
                continue
            rings = []
            if p['packet'] == AF1F:
                r = r1
                while r < r2:
                    r += 1
                    rings.append((r - 1, r))
            else:
                rings.append((r1, r2))
            for a, b in rings:
                dt = min(57.2173 / b, dd)
                t = t1
                while t < t2:
                    u = min(t + dt, t2)
                    out.append((a, b, t, u, code, lv))
                    t = u
    return out


def place(lon0, lat0, r, th):
    x, y = r * math.sin(math.radians(th)), r * math.cos(math.radians(th))
    dlat = y / KM
    return lon0 + x / (KM * math.cos(math.radians(lat0 + dlat / 2))), lat0 + dlat


class Check:
    pid = 'C24'
    title = 'The radar decoder draws every cell of a product where it lies'
    parts = ['cli']
    drivers = []
    quick, thorough = 2500, 100000
    rule = ('a case counts as non-trivial when some of the cells of the product had to be drawn and others left out, or the product '
            'was a damaged one')
    assumptions = ['bins of a length that noaaport uses (a quarter of a kilometre to four)', 'a radar away from the poles and the date line',
                   'the cells are split as the program documents, in steps of one kilometre and arcs of one kilometre']

    def gen(self, src):
        packet = src.pick([AF1F, AF1F, D16])
        code = src.pick([19, 20, 27, 78, 80, 56, 19] if packet == AF1F else [94, 99])
        if src.bool(0.04):
            code = src.pick([19, 94, 27, 99, 56])
        p = dict(packet=packet, code=code, mode=src.wpick((6, 2), (4, 1), (1, src.pick([0, 3]))),
                 scale=src.wpick((6, 1000), (2, src.pick([2000, 4000])), (2, src.pick([250, 500, 999]))))
        big = src.bool(0.02)
        rad = []
        a = src.draw(3600)
        step = src.pick([10, 10, 5, 20, 1, 9, 11])
        for i in range(src.wpick((1, 0), (5, src.int(1, 3)), (3, src.int(4, 8))) if not big else 360):
            delta = step if src.bool(0.9) else src.pick([0, 1, 7, 30])
            runs = []
            if packet == AF1F:
                for _ in range(src.wpick((5, src.int(0, 6)), (2, src.int(7, 14)))):
                    runs.append((src.wpick((5, src.int(1, 4)), (2, src.int(5, 15)), (1, 0)), src.draw(16)))
                if len(runs) % 2:
                    runs.append((0, 0))
            else:
                for _ in range(src.wpick((5, src.int(0, 30)), (2, src.int(30, 120)))):
                    runs.append((1, src.wpick((3, src.draw(256)), (2, src.pick([0, 1, 2, 3, 65, 66, 67, 128, 129, 130, 255])))))
            rad.append((a, delta, runs))
            a = (a + delta) % 3600
        p['radials'] = rad
        p['M'] = src.wpick((4, None), (1, src.pick([5, 20, 0, -20, -64, 100])))
        p['N'] = src.wpick((4, None), (1, src.pick([5, 20, 50, 0, 200, 96])))
        p['bz'] = src.wpick((5, None), (4, src.int(1, 9)))
        p['pad'] = src.wpick((60, None), (1, src.pick([1 << 18, 1 << 19, 1 << 20]) + src.int(-1, 1)), (1, src.int(262000, 800000)))
        p['lat'], p['lon'] = src.int(-55000, 70000), src.int(-165000, 165000)
        p['height'] = src.int(0, 12000)
        p['days'], p['secs'] = src.int(10000, 24000), src.int(0, 86399)
        p['awips'] = src.pick(['N0RJUA', 'N1PTOP', 'N0QABC'])
        p['skip'] = src.wpick((3, None), (2, 'C'), (1, 30))
        p['gpk'] = src.bool(0.3)
        p['stdin'] = src.bool(0.4)
        p['tail'] = src.pick([b'', b'', b'\r\r\n\3'])
        # outputs
        form = src.pick(['none', 'a', 'flags', 'flags', 'names', 'names'])
        base = src.pick([None, None, 'radar', 'x.y'])
        dirn = src.pick([None, None, 'out'])
        p['outs'] = (form, [f for f in 'FOPXV' if src.bool()], base, dirn, src.bool(0.3))
        d = src.draw(12)
        p['damage'] = None
        if d == 0:
            p['damage'] = ('cut', src.draw(1 << 20))
        elif d == 1:
            p['damage'] = ('byte', [(src.draw(1 << 20), src.draw(256)) for _ in range(src.int(1, 4))])
        elif d == 2:
            p['damage'] = ('radials', src.pick([1, 2, 100, 65535]))
        elif d == 3:
            p['damage'] = ('last', src.pick([1, 2, 3, 50, 65535]))
        elif d == 4:
            p['damage'] = src.pick([('packet', 17), ('packet', 1), ('divider', 0), ('divider', 0x425a), ('code', 30), ('code', 95), ('div2', 0)])
        return p

    def build(self, p):
        """(file, 'good' | 'bad' | 'any')"""
        b = b''
        kind, arg = p['damage'] or (None, None)
        verdict = 'good'
        for i, (start, delta, runs) in enumerate(p['radials']):
            n = len(runs) // 2 if p['packet'] == AF1F else len(runs)
            if kind == 'last' and i == len(p['radials']) - 1:
                n = min(65535, n + arg)
                verdict = 'bad'
            b += struct.pack('>HHH', n, start, delta)
            b += bytes((k << 4 | c) if p['packet'] == AF1F else c for k, c in runs)
        nr = len(p['radials'])
        if kind == 'radials':
            nr = min(65535, nr + arg)
            verdict = 'bad'
        pk = arg if kind == 'packet' else p['packet']
        body = struct.pack('>HHHHHHH', pk, 0, 230, 0, 0, p['scale'], nr)
        layer = struct.pack('>hI', -1, len(body) + len(b)) + body + b
        sym = struct.pack('>HHIH', arg if kind == 'divider' else 0xffff, 1, 10 + len(layer), 1)
        data = sym + layer
        if kind in ('packet', 'divider'):
            verdict = 'bad'
        if kind == 'byte':
            data = bytearray(data)
            for pos, v in arg:
                data[pos % len(data)] = v
            data = bytes(data)
            verdict = 'any'
        if p['bz']:
            if kind == 'div2':
                data = b'\0\0' + data[2:]
                verdict = 'bad'
            if p['pad'] and not kind:
                data += b'\0' * (p['pad'] - len(data))
            data = bz2.compress(data, p['bz'])
        code = p['code']
        if kind == 'code':
            code = arg
            verdict = 'bad'
        h = nids_header(code, p['days'], p['secs'], 120 + len(data), -1, p['lat'], p['lon'], p['height'], code, p['mode'])
        f = b'SDUS52 TJSJ 010203\r\r\n' + p['awips'].encode() + b'\r\r\n' + h + data
        if kind == 'cut':
            f = f[:arg % len(f)]
            verdict = 'bad'
        else:
            f += p['tail']
        skip = 24 if p['skip'] == 'C' else p['skip'] or 0
        return b'\0' * skip + (GPK if p['gpk'] else b'') + f, verdict

    def run(self, p, ctx):
        d = ctx.dir()
        data, verdict = self.build(p)
        want = cells(p) if verdict == 'good' else None
        if want == 'bad':
            want, verdict = None, 'bad'
        form, flags, base, dirn, dash = p['outs']
        where = d
        a = ['-C'] if p['skip'] == 'C' else ['-c', str(p['skip'])] if p['skip'] else []
        if dirn:
            os.mkdir(d + '/out')
            where = d + '/out'
            a += ['-d', 'out']
        for o in 'MN':
            if p[o] is not None:
                a += ['-' + o, str(p[o])]
        t = time.gmtime((p['days'] - 1) * 86400 + p['secs'])
        b = base or '%s_%d%02d%02d_%02d%02d' % (p['awips'].lower(), t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min)
        if base:
            a += ['-n', base]
        ext = dict(F='dbf', O='info', P='shp', X='shx', V='csv')
        files = {}
        if form == 'names' and flags:
            for f in flags:
                n = 'my.' + ext[f] if not (f == 'V' and dash) else '-'
                a += [dict(F='-f', O='-o', P='-p', X='-x', V='-v')[f], n]
                files[ext[f]] = n
        else:
            fs = 'FOPXV' if form == 'a' else flags if form == 'flags' and flags else 'FOPX'
            if form == 'a':
                a.append('-a')
            elif form == 'flags' and flags:
                a.append('-' + ''.join(flags))
            for f in fs:
                files[ext[f]] = b + '.' + ext[f]
        out = Outcome()
        if p['stdin']:
            r = ctx.exec([ctx.cli('nbspradgis')] + a, stdin=data, cwd=d)
        else:
            with open(d + '/in.nids', 'wb') as f:
                f.write(data)
            r = ctx.exec([ctx.cli('nbspradgis')] + a + ['in.nids'], cwd=d)
        what = 'nbspradgis %s' % ' '.join(a)
        out.tags = ['packet %d' % p['packet'], verdict]
        out.nontrivial = verdict != 'good' or len(want) > 1
        out.bad = self.judge(p, verdict, want, files, where, r, what)
        return out

    def judge(self, p, verdict, want, files, where, r, what):
        if r.crash:
            return '%s: %s' % (what, r.crash)
        if verdict == 'bad':
            return None if r.code == 1 else '%s: exit status %d for a product that cannot be decoded' % (what, r.code)
        if verdict == 'any':
            return None if r.code in (0, 1) else '%s: exit status %d' % (what, r.code)
        if r.code != 0:
            return '%s: exit status %d: %s' % (what, r.code, r.err[-200:])
        got = {x for x in os.listdir(where) if x not in ('in.nids', 'out')}
        if got != {n for n in files.values() if n != '-'}:
            return '%s wrote the files %s, expected %s' % (what, sorted(got), sorted(files.values()))
        c = {k: r.out if n == '-' else open(os.path.join(where, n), 'rb').read() for k, n in files.items()}
        lon0, lat0 = p['lon'] / 1000.0, p['lat'] / 1000.0
        polys = []
        for r1, r2, t1, t2, code, lv in want:
            polys.append(([place(lon0, lat0, r1, t1), place(lon0, lat0, r2, t1), place(lon0, lat0, r2, t2), place(lon0, lat0, r1, t2)], code, lv))
        box = None
        if polys:
            xs = [x for q in polys for x, y in q[0]]
            ys = [y for q in polys for x, y in q[0]]
            box = [min(xs), min(ys), max(xs), max(ys)]
        for k in sorted(c):
            try:
                bad = getattr(self, k)(p, c[k], polys, box)
            except (struct.error, ValueError, IndexError) as e:
                bad = 'cannot be read (%s)' % e
            if bad:
                return '%s: the %s file %s' % (what, k, bad)
        return None

    @staticmethod
    def near(a, b, eps=1e-7):
        return all(abs(x - y) < eps for x, y in zip(a, b)) and len(a) == len(b)

    def csv(self, p, data, polys, box):
        lines = data.decode().split('\n')
        if lines.pop() != '' or len(lines) != len(polys):
            return 'has %d lines, expected %d' % (len(lines), len(polys))
        for i, (l, (pts, code, lv)) in enumerate(zip(lines, polys)):
            g, c, v = l.split(',')
            g = [float(x) for x in g.split(' ')]
            w = [x for q in pts + pts[:1] for x in q]
            if not self.near(g, w, 0.00051) or (int(c), int(v)) != (code, lv):
                return 'has the line %r for the cell %s code %d level %d' % (l, ' '.join('%.4f' % x for x in w), code, lv)

    def header(self, p, data, words, box):
        if struct.unpack('>I', data[:4])[0] != 9994 or struct.unpack('<II', data[28:36]) != (1000, 5):
            return 'has no header of a polygon shapefile'
        if struct.unpack('>I', data[24:28])[0] != words or len(data) != words * 2:
            return 'says a length of %d words, has %d bytes, expected %d words' % (struct.unpack('>I', data[24:28])[0], len(data), words)
        if box and not self.near(struct.unpack('<4d', data[36:68]), box):
            return 'has the bounding box %s, expected %s' % (struct.unpack('<4d', data[36:68]), box)

    def shp(self, p, data, polys, box):
        bad = self.header(p, data, 50 + 68 * len(polys), box)
        if bad:
            return bad
        o = 100
        for i, (pts, code, lv) in enumerate(polys):
            n, l = struct.unpack('>II', data[o:o + 8])
            shape, = struct.unpack('<I', data[o + 8:o + 12])
            bb = struct.unpack('<4d', data[o + 12:o + 44])
            parts, points, first = struct.unpack('<III', data[o + 44:o + 56])
            if (n, l, shape, parts, points, first) != (i + 1, 64, 5, 1, 5, 0):
                return 'has the record %d (length %d, shape %d, %d parts, %d points) as its record %d' % (n, l, shape, parts, points, i + 1)
            g = struct.unpack('<10d', data[o + 56:o + 136])
            w = [x for q in pts + pts[:1] for x in q]
            if not self.near(g, w):
                return 'has the polygon %s as its record %d, expected %s' % (g, i + 1, w)
            if not self.near(bb, [min(w[::2]), min(w[1::2]), max(w[::2]), max(w[1::2])]):
                return 'has the bounding box %s in its record %d of polygon %s' % (bb, i + 1, w)
            o += 136

    def shx(self, p, data, polys, box):
        bad = self.header(p, data, 50 + 4 * len(polys), box)
        if bad:
            return bad
        for i in range(len(polys)):
            if struct.unpack('>II', data[100 + 8 * i:108 + 8 * i]) != (50 + 68 * i, 64):
                return 'has %s for the record %d' % (struct.unpack('>II', data[100 + 8 * i:108 + 8 * i]), i + 1)

    def dbf(self, p, data, polys, box):
        n, hs, rs = struct.unpack('<IHH', data[4:12])
        if n != len(polys):
            return 'has %d records, expected %d' % (n, len(polys))
        fields, o = [], 32
        while data[o] != 13:
            fields.append((data[o:o + 11].split(b'\0')[0].decode(), chr(data[o + 11]), data[o + 16], data[o + 17]))
            o += 32
        if [f[0] for f in fields] != ['code', 'level'] or any(f[1] != 'N' or f[3] for f in fields) or o + 1 != hs or rs != 1 + sum(f[2] for f in fields):
            return 'has the fields %s, records of %d bytes after %d' % (fields, rs, hs)
        if not 0 <= len(data) - hs - rs * n <= 1:
            return 'has %d bytes for %d records' % (len(data) - hs, n)
        for i, (_, code, lv) in enumerate(polys):
            q = data[hs + rs * i:hs + rs * i + rs]
            if q[:1] != b' ' or (int(q[1:1 + fields[0][2]]), int(q[1 + fields[0][2]:])) != (code, lv):
                return 'has %r as its record %d, expected code %d level %d' % (q, i + 1, code, lv)

    def info(self, p, data, polys, box):
        v = dict(l.split(': ', 1) for l in data.decode().splitlines())
        w = dict(radseconds=(p['days'] - 1) * 86400 + p['secs'], radmode=p['mode'], prodcode=p['code'], packetcode=p['packet'],
                 lon='%.3f' % (p['lon'] / 1000.0), lat='%.3f' % (p['lat'] / 1000.0), height=p['height'])
        for k in w:
            if v.get(k) != str(w[k]):
                return 'says %s %s, expected %s' % (k, v.get(k), w[k])
        if box and not self.near([float(x) for x in v['bb'].split()], box, 1.1e-6):
            return 'says bb %s, expected %s' % (v['bb'], box)
