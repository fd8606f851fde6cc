"""The GOES-R tools: nbspgoesr, nbspgoesrgis (points) and nbspgoesrinfo."""
import datetime, math, os, struct
from pbt import Outcome
from c25 import png

H, REQ, RPOL = 42164160.0, 6378137.0, 6356752.31414
D = math.pi / 180
KINDS = {   # variable, projection, option, micro radians
    'cmi': ('Sectorized_CMI', 'fixedgrid_projection', None, True),
    'glm': ('Total_Optical_energy', 'goes_imager_projection', '-g', False),
    'rad': ('Rad', 'goes_imager_projection', '-r', False)}
CODE = {'c': 2, 'h': 3, 'i': 4, 'f': 5, 'd': 6}


def f32(v):
    return struct.unpack('>f', struct.pack('>f', v))[0]


def pad(b):
    return b + b'\0' * (-len(b) % 4)


def name(s):
    s = s.encode() if isinstance(s, str) else s
    return struct.pack('>I', len(s)) + pad(s)


def values(t, vals):
    if t == 'c':
        return vals if isinstance(vals, bytes) else vals.encode('latin-1')
    return struct.pack('>%d%s' % (len(vals), t), *vals)


def atts(a):
    """attributes {name: (type, values)}"""
    if not a:
        return struct.pack('>II', 0, 0)
    out = struct.pack('>II', 12, len(a))
    for k, (t, v) in a.items():
        out += name(k) + struct.pack('>II', CODE[t], len(v)) + pad(values(t, v))
    return out


def netcdf(dims, gatts, vars_):
    """A file in the classic format.  dims [(name, size)], vars_ [(name, [dim], atts, type, values)]"""
    def head(begins):
        out = b'CDF\x01' + struct.pack('>I', 0)
        out += struct.pack('>II', 10, len(dims)) if dims else struct.pack('>II', 0, 0)
        for n, s in dims:
            out += name(n) + struct.pack('>I', s)
        out += atts(gatts)
        out += struct.pack('>II', 11, len(vars_)) if vars_ else struct.pack('>II', 0, 0)
        for (n, ds, a, t, v), b in zip(vars_, begins):
            out += name(n) + struct.pack('>I', len(ds)) + b''.join(struct.pack('>I', d) for d in ds)
            out += atts(a) + struct.pack('>III', CODE[t], len(pad(values(t, v))), b)
        return out
    begins, o = [], len(head([0] * len(vars_)))
    for v in vars_:
        begins.append(o)
        o += len(pad(values(v[3], v[4])))
    return head(begins) + b''.join(pad(values(v[3], v[4])) for v in vars_)


def place(x, y, lov):
    """(relative discriminant, lon, lat) of the scan angles x, y"""
    sx, cx, sy, cy = math.sin(x), math.cos(x), math.sin(y), math.cos(y)
    a = sx * sx + cx * cx * (cy * cy + (REQ / RPOL * sy) ** 2)
    b = -2 * H * cx * cy
    c = H * H - REQ * REQ
    d = b * b - 4 * a * c
    rel = d / (b * b)
    rs = -(b + math.sqrt(max(d, 0))) / (2 * a)
    px, py, pz = rs * cx * cy, -rs * sx, rs * cx * sy
    lat = math.atan((REQ / RPOL) ** 2 * pz / math.hypot(H - px, py))
    return rel, lov - math.atan(py / (H - px)) / D, lat / D


def scan(lon, lat, lov):
    """scan angles of a place, None when it is not visible, and how clear that is"""
    phi = math.atan((RPOL / REQ) ** 2 * math.tan(lat * D))
    e2 = 1 - (RPOL / REQ) ** 2
    rc = RPOL / math.sqrt(1 - e2 * math.cos(phi) ** 2)
    l = (lon - lov) * D
    sx, sy, sz = H - rc * math.cos(phi) * math.cos(l), -rc * math.cos(phi) * math.sin(l), rc * math.sin(phi)
    vis = (H * (H - sx) - sy * sy - (REQ / RPOL * sz) ** 2) / (H * REQ)
    return vis, math.asin(-sy / math.sqrt(sx * sx + sy * sy + sz * sz)), math.atan(sz / sx)


def axis(src, first, step, n, plain):
    """an axis of n values in the units of the file, as (attributes, type, raw values)"""
    if plain:
        return dict(t=src.pick('fd'), off=None, scale=None, raw=[first + i * step for i in range(n)])
    t = src.pick('hif')
    at = src.int(-20, 20)
    rev = src.bool(0.2)
    s = -step if rev else step
    raw = [(at + i) * (-1 if rev else 1) for i in range(n)]
    return dict(t=t, off=first - at * step, scale=s, raw=raw, at=src.pick('fd'))


def image(src, big=False, wide=True):
    """an image: kind, sizes, axes, data"""
    p = dict(kind=src.wpick((5, 'cmi'), (1, 'glm'), (2, 'rad')))
    micro = KINDS[p['kind']][3]
    p['nx'], p['ny'] = src.int(2, 12), src.int(2, 12)
    if big:
        p['nx'], p['ny'] = src.int(20, 60), src.int(20, 60)
    p['lov'] = src.pick([-75.0, -75.0, -137.0, -137.0, -89.5, 0.0, 140.7])
    where = src.wpick((6, 'disc'), (2, 'south'), (2 if wide else 0, 'limb'), (2 if wide else 0, 'full'))
    if where == 'full':
        dx, dy = 320000 // p['nx'], 320000 // p['ny']
        x0, y0 = -dx * (p['nx'] - 1) // 2, dy * (p['ny'] - 1) // 2
    elif where == 'limb':
        dx, dy = src.int(100, 60000 // p['nx']), src.int(100, 60000 // p['ny'])
        x0, y0 = src.pick([-150000, -130000, 90000]), src.int(-100000, 150000)
    else:
        dx, dy = src.int(56, 90000 // p['nx']), src.int(56, 90000 // p['ny'])
        x0 = src.int(-90000, 90000 - dx * p['nx'])
        y0 = src.int(-90000 + dy * p['ny'], 90000) if where == 'disc' else src.int(-90000 + dy * p['ny'], 0)
    u = 1.0 if micro else 1e-6
    p['x'] = axis(src, x0 * u, dx * u, p['nx'], src.bool(0.1))
    p['y'] = axis(src, y0 * u, -dy * u, p['ny'], src.bool(0.1))
    n = p['nx'] * p['ny']
    look = src.wpick((5, 'any'), (2, 'few'), (1, 'half'), (1, 'same'))
    plain = src.bool(0.12)
    if plain:
        t, mk = 'f', lambda: src.int(-2000, 4000) / 8.0
        p['data'] = dict(off=None, scale=None)
    else:
        t, mk = src.pick('hhif'), lambda: src.int(0, 4095)
        p['data'] = dict(off=src.pick([0.0, 0.0, 183.5, -0.5, -20.25, -900.0, 1.5e-3]), scale=src.pick([1.0, 0.5, 0.04, 0.0375, 2.442e-4, -0.5]),
                         at=src.pick('fd'))
    base = mk()
    if look == 'any':
        raw = [mk() for i in range(n)] if n <= 200 else [(base + 37 * i + 11 * (i // p['nx'])) % 4096 for i in range(n)]
    elif look == 'same':
        raw = [base] * n
    else:
        raw = [base] * n
        for i in range(src.int(1, 4) if look == 'few' else n // 2):
            raw[src.int(0, n - 1)] = mk()
    p['data'].update(t=t, raw=raw)
    return p


def offscale(v):
    if v['off'] is None:
        return {}
    return {'add_offset': (v['at'], [v['off']]), 'scale_factor': (v['at'], [v['scale']])}


def make(p, drop=None):
    """the bytes of the file of an image"""
    var, proj, opt, micro = KINDS[p['kind']]
    nx, ny = p['nx'], p['ny']
    dims = [('y', ny), ('x', nx), ('extra', 5)]
    vs = []
    for nm, d in (('x', 1), ('y', 0)):
        v = p[nm]
        raw, dd = v['raw'], [d]
        if drop == 'size ' + nm:
            raw, dd = list(raw) * 5, [d, 2]
        vs.append((nm, dd, offscale(v), v['t'], raw))
    raw, dd = p['data']['raw'], [0, 1]
    if drop == 'size data':
        raw, dd = list(raw) * 5, [0, 1, 2]
    vs.append((var, dd, offscale(p['data']), p['data']['t'], raw))
    pa = {'longitude_of_projection_origin': (p.get('lovt', 'd'), [p['lov']]), 'perspective_point_height': ('d', [35786023.0])}
    if drop == 'origin':
        del pa['longitude_of_projection_origin']
    vs.append((proj, [], pa, 'i', [0]))
    if drop == 'proj':
        vs.pop()
    if drop in ('x', 'y'):
        vs = [v for v in vs if v[0] != drop]
    if drop == 'data':
        vs = [v for v in vs if v[0] != var]
    if drop in ('dim x', 'dim y'):
        dims = [(n if n != drop[-1] else 'z', s) for n, s in dims]
    if p.get('order'):
        vs = [vs[i % len(vs)] for i in range(p['order'], p['order'] + len(vs))]
    g = {'title': ('c', b'Sectorized Cloud and Moisture Imagery')}
    if p.get('tc'):
        g['tile_center_longitude'] = ('f', [p['tc'][0]])
        g['tile_center_latitude'] = ('f', [p['tc'][1]])
    return netcdf(dims, g, vs)


def decode(p):
    """The image as it is meant: scan angles, points [(rel, lon, lat)], values, and the sets of levels a point can have"""
    micro = KINDS[p['kind']][3]

    def real(v):
        o, s = (0.0, 1.0) if v['off'] is None else (f32(v['off']), f32(v['scale']))
        return [r * s + o for r in v['raw']]
    x = [v * (1e-6 if micro else 1.0) for v in real(p['x'])]
    y = [v * (1e-6 if micro else 1.0) for v in real(p['y'])]
    cmi = real(p['data'])
    o, s = (0.0, 1.0) if p['data']['off'] is None else (f32(p['data']['off']), f32(p['data']['scale']))
    pts = [place(a, b, p['lov']) for b in y for a in x]
    lo, hi = min(cmi), max(cmi)
    raws = set(p['data']['raw'])
    if len(raws) == 1:
        levels = [{0}] * len(cmi)
    else:
        mag = abs(o) + max(abs(r * s) for r in raws)
        eps = 255 * 6e-7 * mag / (hi - lo) + 1e-4 if hi > lo else 1e9
        levels = []
        for v in cmi:
            w = (v - lo) * 255 / (hi - lo) if hi > lo else 0
            a, b = max(0, math.floor(w - eps)), min(255, math.floor(w + eps))
            levels.append(set(range(int(max(a, 0)), int(min(b, 255)) + 1)))
    return x, y, pts, cmi, levels


def tol(q):
    """how far a point can be for the single precision of the tools, in degrees of longitude and latitude"""
    t = 0.004 + 1e-5 / q[0]
    return t / math.cos(q[2] * D), t


def unclear(pts):
    return any(-2e-4 < q[0] < 6e-4 for q in pts) or any(q[0] > 0 and abs(q[1]) > 179.9 for q in pts)


class Check:
    pid = 'C28'
    title = 'The GOES-R tools describe and place every pixel of a satellite file'
    parts = ['cli']
    drivers = []
    quick, thorough = 3000, 120000
    rule = ('a case counts as non-trivial when a tool had to convert or place the pixels of an image or report its parameters, or refuse a file '
            'that lacks something')
    assumptions = ['files in the classic netCDF format', 'no pixel exactly at the limb of the Earth or beyond the date line',
                   'no missing values among the pixels']

    def gen(self, src):
        tool = src.wpick((4, 'goesr'), (6, 'gis'), (3, 'info'))
        if tool == 'info':
            return dict(tool=tool, p=self.geninfo(src))
        p = image(src, big=src.bool(0.05))
        p['tool'] = tool
        p['order'] = src.int(0, 3)
        p['lovt'] = src.pick('dfd')
        if p['kind'] == 'cmi' and src.bool(0.7) or src.bool(0.1):
            p['tc'] = [src.int(-18000, 18000) / 100.0, src.int(-9000, 9000) / 100.0]
        p['drop'] = None
        if src.bool(0.12):
            p['drop'] = src.pick(['x', 'y', 'data', 'proj', 'origin', 'dim x', 'dim y', 'size x', 'size y', 'size data', 'kind', 'text', 'none'])
        if tool == 'goesr':
            p['c'], p['i'], p['o'] = src.bool(0.4), src.bool(0.4), src.bool(0.5)
        else:
            p['opts'] = [o for o in 'FOPVX' if src.bool(0.5)]
            p['own'] = [o for o in 'FOPVX' if src.bool(0.25)]
        p['d'] = src.bool(0.25)
        return p

    def geninfo(self, src):
        def text():
            return ''.join(src.pick('ABCdefGHI-0123456789_') for i in range(src.int(*src.wpick((2, (1, 8)), (4, (9, 30)), (1, (60, 200))))))
        y = src.int(1990, 2037)
        leap = y % 4 == 0
        p = dict(product_name=text(), source_scene=text(), satellite_id=text(), mode=src.int(0, 20), chan=src.int(0, 300), y=y,
                 doy=src.near(1, 31, 59, 60, 61, 365 + leap) if src.bool(0.5) else src.int(1, 365 + leap), h=src.int(0, 23), mi=src.int(0, 59), s=src.int(0, 59))
        p['doy'] = min(max(p['doy'], 1), 365 + leap)
        p['tz'] = src.pick([None, 'UTC', 'EST5EDT', 'AST4', 'XXX-9'])
        p['drop'] = src.pick(['product_name', 'start_date_time', 'source_scene', 'satellite_id', 'abi_mode', 'channel_id', 'date', 'none']) \
            if src.bool(0.12) else None
        p['order'] = src.int(0, 5)
        p['t'] = src.pick('ihid')
        return p

    def info(self, p, ctx):
        d = ctx.dir()
        date = '%04d%03d%02d%02d%02d' % (p['y'], p['doy'], p['h'], p['mi'], p['s'])
        if p['drop'] == 'date':
            date = ['nodate', '20251', ''][p['mi'] % 3] or 'x'
        a = [('product_name', ('c', p['product_name'])), ('start_date_time', ('c', date)), ('source_scene', ('c', p['source_scene'])),
             ('satellite_id', ('c', p['satellite_id'])), ('abi_mode', (p['t'], [p['mode']])), ('channel_id', (p['t'], [p['chan']]))]
        a = [a[(i + p['order']) % 6] for i in range(6)]
        a = {k: v for k, v in a if k != p['drop']}
        data = netcdf([('x', 2)], a, [('x', [0], {}, 'h', [1, 2])])
        if p['drop'] == 'none':
            data = data[:3]
        with open(d + '/f.nc', 'wb') as f:
            f.write(data)
        env = {'TZ': p['tz']} if p['tz'] else {}
        r = ctx.exec([ctx.cli('nbspgoesrinfo'), d + '/f.nc'], env=dict(os.environ, **env))
        tags = ['info', 'drop ' + p['drop'].split('_')[0] if p['drop'] else 'whole']
        if r.crash:
            return Outcome('nbspgoesrinfo: ' + r.crash, True, 'info', tags)
        if p['drop']:
            if r.code == 0 or r.out:
                return Outcome('nbspgoesrinfo accepted a file with a damaged %s: %r' % (p['drop'], r.out[:200]), True, 'infodrop', tags)
            return Outcome(None, True, 'infodrop', tags)
        t = datetime.datetime(p['y'], 1, 1, p['h'], p['mi'], p['s'], tzinfo=datetime.timezone.utc) + datetime.timedelta(days=p['doy'] - 1)
        want = '%s %s %s %s %d %d %d %s %s\n' % (p['product_name'].lower(), date, p['source_scene'].lower(), p['satellite_id'].lower(), p['mode'], p['chan'],
                                               int(t.timestamp()), t.strftime('%Y%m%d'), t.strftime('%H%M'))
        bad = None
        if r.code or r.out.decode('latin-1') != want:
            bad = 'nbspgoesrinfo wrote %r (exit code %s), expected %r' % (r.out[:400], r.code, want)
        return Outcome(bad, True, 'info ' + date, tags)

    def run(self, p, ctx):
        if p['tool'] == 'info':
            return self.info(p['p'], ctx)
        x, y, pts, cmi, levels = decode(p)
        if unclear(pts):
            return Outcome(None, False, 'unclear', ['unclear'])
        d = ctx.dir()
        data = make(p, p['drop'])
        opt = KINDS[p['kind']][2]
        if p['drop'] == 'text':
            data = b'ZCZC this is not a netcdf file\r\r\n' * 20
        elif p['drop'] == 'kind':
            opt = {'cmi': '-r', 'rad': None, 'glm': None}[p['kind']]
        if p['drop'] != 'none':
            with open(d + '/in.nc', 'wb') as f:
                f.write(data)
        tags = [p['tool'], p['kind'], 'drop' if p['drop'] else 'whole', 'space' if any(q[0] < 0 for q in pts) else 'earth']
        if p['x']['off'] is None or p['y']['off'] is None or p['data']['off'] is None:
            tags.append('no attributes')
        args = [opt] if opt else []
        out = d
        if p['d']:
            out = d + '/out'
            os.mkdir(out)
            args += ['-d', out]
        files = {}
        if p['tool'] == 'goesr':
            args += ['-c'] * p['c'] + ['-i'] * p['i'] + (['-o', 'res'] if p['o'] else [])
        else:
            ext = dict(F='.dbf', O='.info', P='.shp', V='.csv', X='.shx')
            want = set(p['opts']) | set(p['own'])
            for o in p['own']:
                files[o] = 'my' + o
                args += ['-' + dict(F='f', O='o', P='p', V='v', X='x')[o], files[o]]
            args += ['-' + o for o in p['opts']]
            want = want or set('FOPX')
            for o in want:
                files.setdefault(o, 'base' + ext[o])
            args += ['-n', 'base']
        r = ctx.exec([ctx.cli('nbspgoesr' if p['tool'] == 'goesr' else 'nbspgoesrgis')] + args + [d + '/in.nc'], cwd=d)
        have = sorted(n for n in os.listdir(out) if n not in ('in.nc', 'out'))
        if r.crash:
            return Outcome('%s %s: %s' % (p['tool'], args, r.crash), True, 'crash', tags)
        if p['drop']:
            bad = None
            if r.code == 0 or r.out or have:
                bad = '%s %s took a file without a good %s: exit code %s, output %r, files %s' % (p['tool'], args, p['drop'], r.code, r.out[:100], have)
            return Outcome(bad, True, 'drop ' + p['drop'], tags + ['drop ' + p['drop']])
        if r.code:
            return Outcome('%s %s failed: %s' % (p['tool'], args, r.err[:300]), True, 'fail', tags)
        bad = self.goesr(p, r, out, have, pts, cmi, levels) if p['tool'] == 'goesr' else self.gis(p, files, out, have, pts, levels)
        return Outcome(bad and '%s %s %s' % (p['tool'], ' '.join(args), bad), True, '%s %s %d %d %s %s' % (' '.join(args), p['kind'], p['nx'], p['ny'], p['x']['raw'][0], p['data']['raw'][-1]), tags)

    def box(self, pts, sel):
        q = [v for v, s in zip(pts, sel) if s and v[0] > 0]
        if not q:
            return None
        return [min(v[1] for v in q), min(v[2] for v in q), max(v[1] for v in q), max(v[2] for v in q)], max(tol(v)[0] for v in q)

    def boxes(self, pts, levels):
        """the bounding box, and the smallest and largest that the one without background can be"""
        sure = self.box(pts, [0 not in l for l in levels])
        may = self.box(pts, [l != {0} for l in levels])
        return self.box(pts, [True] * len(pts)), sure if sure == may else 'any'

    def boxbad(self, got, want):
        if want is None or want == 'any':
            return None
        b, t = want
        if any(not abs(g - w) <= t for g, w in zip(got, b)):
            return 'is %s, expected %s' % (list(got), ['%.4f' % v for v in b])

    def point(self, lon, lat, q):
        t = tol(q)
        return abs(lat - q[2]) <= t[1] and abs((lon - q[1] + 180) % 360 - 180) <= t[0]

    def goesr(self, p, r, out, have, pts, cmi, levels):
        rest = r.out
        if have != (['res'] if p['o'] else []):
            return 'made the files %s' % have
        if p['i']:
            line, rest = (rest.split(b'\n', 1) + [b''])[:2]
            v = line.split()
            if len(v) != 12:
                return 'has the information %r' % line
            if (int(v[0]), int(v[1])) != (p['nx'], p['ny']):
                return 'says a size of %s x %s, expected %d x %d' % (v[0], v[1], p['nx'], p['ny'])
            tc = p.get('tc') if p['kind'] == 'cmi' and p.get('tc') else [0.0, 0.0]
            v = [float(t) for t in v[2:]]
            if any(abs(a - b) > 2e-5 for a, b in zip(v, tc)):
                return 'says the center %s, expected %s' % (v[:2], tc)
            bb, ll = self.boxes(pts, levels)
            bad = self.boxbad(v[2:6], bb)
            if bad:
                return 'the bounding box ' + bad
            bad = self.boxbad(v[6:10], ll)
            if bad:
                return 'the box without background ' + bad
        body = rest
        if p['o']:
            if rest:
                return 'wrote %r to the standard output' % rest[:100]
            body = open(out + '/res', 'rb').read()
        if p['c']:
            lines = body.decode('latin-1').split('\n')
            if lines.pop() != '':
                return 'has an incomplete last line'
            exp = [(q, v) for q, v in zip(pts, cmi) if q[0] > 0]
            if len(lines) != len(exp):
                return 'has %d lines of csv, expected %d' % (len(lines), len(exp))
            dv = p['data']
            mag = max(abs(v) for v in cmi) + abs(dv['off'] or 0)
            for k, (l, (q, v)) in enumerate(zip(lines, exp)):
                a = [float(t) for t in l.split(',')]
                if len(a) != 3 or not self.point(a[0], a[1], q) or not abs(a[2] - v) <= 1e-6 * mag + 2e-6:
                    return 'has %r as line %d, expected %.4f %.4f %f' % (l, k + 1, q[1], q[2], v)
        elif not p['i'] or p['o']:
            try:
                w, h, pix = png(body)
            except (ValueError, IndexError, struct.error) as e:
                return 'wrote no good image: %s' % e
            if (w, h) != (p['nx'], p['ny']):
                return 'wrote an image of %d x %d, expected %d x %d' % (w, h, p['nx'], p['ny'])
            for k, (v, ok) in enumerate(zip(pix, levels)):
                if v not in ok:
                    return 'the pixel %d is %d, expected %s' % (k, v, sorted(ok))
        elif body:
            return 'wrote %r after the information' % body[:100]

    def gis(self, p, files, out, have, pts, levels):
        if have != sorted(files.values()):
            return 'made the files %s, expected %s' % (have, sorted(files.values()))
        bb, ll = self.boxes(pts, levels)
        for o in sorted(files):
            data = open(out + '/' + files[o], 'rb').read()
            try:
                bad = dict(F=self.dbf, O=self.gisinfo, P=self.shp, V=self.csv, X=self.shx)[o](p, data, pts, levels, bb, ll)
            except (ValueError, IndexError, KeyError, struct.error) as e:
                bad = 'cannot be read: %r' % e
            if bad:
                return 'the file %s %s' % (files[o], bad)

    def dbf(self, p, data, pts, levels, bb, ll):
        n, hs, rs = struct.unpack('<IHH', data[4:12])
        if n != len(pts) or data[32:43].split(b'\0')[0] != b'level' or data[43:44] != b'N' or data[49] or data[64] != 13 or hs != 65 or rs != 1 + data[48]:
            return 'has the header %r for %d points' % (data[:65], len(pts))
        if not 0 <= len(data) - hs - rs * n <= 1:
            return 'has %d bytes for %d records' % (len(data) - hs, n)
        for i, ok in enumerate(levels):
            t = data[hs + rs * i:hs + rs * i + rs]
            if t[:1] != b' ' or int(t[1:]) not in ok:
                return 'has %r as record %d, expected %s' % (t, i + 1, sorted(ok))

    def gisinfo(self, p, data, pts, levels, bb, ll):
        v = dict(l.split(': ', 1) for l in data.decode().splitlines())
        if (v['nx'], v['ny']) != (str(p['nx']), str(p['ny'])):
            return 'says a size of %s x %s, expected %d x %d' % (v['nx'], v['ny'], p['nx'], p['ny'])
        for k, w in (('bb', bb), ('llur', ll)):
            bad = self.boxbad([float(t) for t in v[k].split()], w)
            if bad:
                return 'the box %s %s' % (k, bad)

    def csv(self, p, data, pts, levels, bb, ll):
        lines = data.decode('latin-1').split('\n')
        exp = [(q, l) for q, l in zip(pts, levels) if q[0] > 0]
        if lines.pop() != '' or len(lines) != len(exp):
            return 'has %d lines, expected %d' % (len(lines), len(exp))
        for k, (l, (q, ok)) in enumerate(zip(lines, exp)):
            a = l.split(',')
            if len(a) != 3 or not self.point(float(a[0]), float(a[1]), q) or int(a[2]) not in ok:
                return 'has %r as line %d, expected %.4f %.4f %s' % (l, k + 1, q[1], q[2], sorted(ok))

    def header(self, data, words, bb):
        if struct.unpack('>I', data[:4])[0] != 9994 or struct.unpack('<II', data[28:36]) != (1000, 1):
            return 'has no header of a point shapefile'
        if struct.unpack('>I', data[24:28])[0] != words or len(data) != words * 2:
            return 'says a length of %d words, has %d bytes, expected %d words' % (struct.unpack('>I', data[24:28])[0], len(data), words)
        bad = self.boxbad(struct.unpack('<4d', data[36:68]), bb)
        if bad:
            return 'the bounding box ' + bad

    def shp(self, p, data, pts, levels, bb, ll):
        bad = self.header(data, 50 + 14 * len(pts), bb)
        if bad:
            return bad
        for i, q in enumerate(pts):
            n, l = struct.unpack('>II', data[100 + 28 * i:108 + 28 * i])
            s, a, b = struct.unpack('<Idd', data[108 + 28 * i:128 + 28 * i])
            if (n, l, s) != (i + 1, 10, 1) or q[0] > 0 and not self.point(a, b, q):
                return 'has %s at record %d, expected the point %.4f %.4f' % ((n, l, s, a, b), i + 1, q[1], q[2])

    def shx(self, p, data, pts, levels, bb, ll):
        bad = self.header(data, 50 + 4 * len(pts), bb)
        if bad:
            return bad
        for i in range(len(pts)):
            if struct.unpack('>II', data[100 + 8 * i:108 + 8 * i]) != (50 + 14 * i, 10):
                return 'has %s for record %d' % (struct.unpack('>II', data[100 + 8 * i:108 + 8 * i]), i + 1)
