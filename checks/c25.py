"""The satellite tools: nbspsatinfo, nbspsat and nbspsatgis."""
import math, os, struct, zlib
from pbt import Outcome

RE = 6371200.0
D = math.pi / 180
EPS = 1e-6


def i24(v):
    return struct.pack('>I', abs(v) | (0x800000 if v < 0 else 0))[1:]


def u24(v):
    return struct.pack('>I', v)[1:]


def unix(y, mo, d, h, mi, s):
    mo -= 1
    y += mo // 12
    mo = mo % 12 + 1
    yy = y - (mo <= 2)
    era = yy // 400
    yoe = yy - era * 400
    doy = (153 * (mo + (-3 if mo > 2 else 9)) + 2) // 5
    days = era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468 + d - 1
    return days * 86400 + h * 3600 + mi * 60 + s


def png(data):
    """(width, height, rows) of an 8 bit gray image"""
    if data[:8] != b'\x89PNG\r\n\x1a\n':
        raise ValueError('no png')
    o, z, head, end = 8, b'', None, False
    while o < len(data):
        n, t = struct.unpack('>I', data[o:o + 4])[0], data[o + 4:o + 8]
        body = data[o + 8:o + 8 + n]
        if struct.unpack('>I', data[o + 8 + n:o + 12 + n])[0] != zlib.crc32(t + body):
            raise ValueError('wrong sum')
        if t == b'IHDR':
            head = struct.unpack('>IIBBBBB', body)
        elif t == b'IDAT':
            z += body
        elif t == b'IEND':
            end = True
        o += n + 12
    if not end or head[2:] != (8, 0, 0, 0, 0):
        raise ValueError('not an 8 bit gray image, or without an end')
    w, h = head[:2]
    raw = zlib.decompress(z)
    if len(raw) != h * (w + 1):
        raise ValueError('%d bytes' % len(raw))
    prev, out = bytearray(w), b''
    for r in range(h):
        f, row = raw[r * (w + 1)], bytearray(raw[r * (w + 1) + 1:(r + 1) * (w + 1)])
        for i in range(w):
            a, b, c = row[i - 1] if i else 0, prev[i], prev[i - 1] if i else 0
            if f == 1:
                row[i] = row[i] + a & 255
            elif f == 2:
                row[i] = row[i] + b & 255
            elif f == 3:
                row[i] = row[i] + (a + b) // 2 & 255
            elif f == 4:
                p = a + b - c
                q = min((abs(p - a), 0, a), (abs(p - b), 1, b), (abs(p - c), 2, c))[2]
                row[i] = row[i] + q & 255
        out += row
        prev = row
    return w, h, out


class Proj:
    def __init__(self, p):
        self.kind = p['proj']
        self.s = -1.0 if p['south'] else 1.0
        self.nx, self.ny = p['nx'], p['ny']
        lat1, lon1, self.lov = p['lat1'] / 1e4 * D, p['lon1'] / 1e4 * D, p['lov'] / 1e4 * D
        if self.kind == 1:
            lat2, lon2 = p['lat2'] / 1e4 * D, p['lon2'] / 1e4 * D
            self.x1, self.y1 = lon1, math.log(math.tan(math.pi / 4 + lat1 / 2))
            self.dx = (lon2 - lon1) / (self.nx - 1) if self.nx > 1 else 0
            self.dy = (math.log(math.tan(math.pi / 4 + lat2 / 2)) - self.y1) / (self.ny - 1) if self.ny > 1 else 0
            self.s = 1.0
            return
        dx, dy = p['dx'] / 10.0, p['dy'] / 10.0
        if self.kind == 5:
            k = 1 / (1 + math.sin(math.pi / 3))
            self.cone = 1.0
            self.r = RE
        else:
            psi = math.pi / 2 - abs(p['latin'] / 1e4 * D)
            self.cone = math.cos(psi)
            self.r = RE / self.cone
            k = math.tan(psi / 2) ** self.cone / math.sin(psi)
        self.dx, self.dy = k * dx, k * dy
        self.x1, self.y1 = self.xy(lon1, lat1)

    def xy(self, lon, lat):
        if self.kind == 1:
            return lon, math.log(math.tan(math.pi / 4 + lat / 2))
        r = self.r * math.tan(math.pi / 4 - self.s * lat / 2) ** self.cone
        b = self.cone * (lon - self.lov)
        return r * math.sin(b), -self.s * r * math.cos(b)

    def place(self, i, j):
        x, y = self.x1 + i * self.dx, self.y1 + self.s * j * self.dy
        if self.kind == 1:
            return x / D, (2 * math.atan(math.exp(y)) - math.pi / 2) / D
        lon = self.lov + math.atan2(x, -self.s * y) / self.cone
        lat = self.s * (math.pi / 2 - 2 * math.atan((math.hypot(x, y) / self.r) ** (1 / self.cone)))
        return lon / D, lat / D

    def index(self, lon, lat):
        x, y = self.xy(lon * D, lat * D)
        return (x - self.x1) / self.dx, self.s * (y - self.y1) / self.dy


class Check:
    pid = 'C25'
    title = 'The satellite tools describe, convert and place images exactly'
    parts = ['cli']
    drivers = []
    quick, thorough = 4000, 150000
    rule = ('a case counts as non-trivial when a tool had to report the fields of an image, convert it or place its points, or refuse a '
            'damaged one')
    assumptions = ['lines are as long as the grid is wide', 'images away from the poles, the date line and the cut of the cone',
                   'dates from 1970']

    def gen(self, src):
        p = dict(tool=src.pick(['info', 'sat', 'sat', 'gis', 'gis', 'gis']))
        p['proj'] = proj = src.pick([1, 3, 5])
        p['south'] = south = src.bool(0.1)
        big = src.bool(0.06)
        p['nx'], p['ny'] = (src.int(30, 130), src.int(30, 130)) if big else (src.int(2, 14), src.int(2, 14))
        if src.bool(0.04):
            p[src.pick(['nx', 'ny'])] = src.pick([0, 1, 1])
        sg = -1 if south and proj != 1 else 1
        p['lat1'] = sg * src.int(50000, 450000)
        p['lov'] = src.int(-1200000, 900000)
        p['lon1'] = p['lov'] + src.int(-500000, 300000)
        if proj == 1:
            p['lov'] = 0
            p['lat1'] = src.int(-400000, 500000)
            p['lon1'] = src.int(-1700000, 1200000)
        if proj == 5:
            p['lat1'] += sg * src.int(0, 300000)
        p['lat2'], p['lon2'] = p['lat1'] + src.int(10000, 150000), p['lon1'] + src.int(20000, 300000)
        p['dx'] = src.wpick((3, 40635), (3, src.int(10000, 500000)), (1, src.int(1, 3000)))
        p['dy'] = p['dx'] if src.bool(0.6) else src.int(10000, 400000)
        if big and proj != 1:
            p['dx'], p['dy'] = min(p['dx'], 100000), min(p['dy'], 100000)
        if proj == 1:
            p['dx'], p['dy'] = src.draw(65536), src.draw(65536)
        p['latin'] = src.pick([250000, 300000, 600000, src.int(200000, 700000)]) * (sg if src.bool() else 1)
        p['ur'] = [src.int(-0x7fffff, 0x7fffff) for _ in range(2)]
        p['ids'] = [src.draw(256) for _ in range(4)]
        p['res'], p['scan'], p['flag'] = src.draw(256), src.draw(256), src.draw(128)
        p['date'] = [src.int(72, 205), src.int(1, 12), src.int(1, 31), src.draw(24), src.draw(60), src.draw(60), src.draw(100)]
        if src.bool(0.1):
            p['date'][1:6] = [src.draw(256) for _ in range(5)]
        if src.bool(0.05):
            p['date'][1] = src.pick([0, 13])
        p['raw'] = src.bool(0.1)        # any bytes in the fields that are only reported
        p['rest'] = src.wpick((5, b''), (2, b'NESDIS' * src.int(1, 60)), (1, src.data(src.int(1, 440))))
        p['wmo'] = src.pick([b'TIGE02 KNES 181230', b'tign01 KNES 010000', b'TIGB05 KNES 312359'])
        p['data'] = src.wpick((4, ('rand', src.draw(1 << 30))), (2, ('sparse', src.draw(1 << 30))), (1, ('zero', 0)))
        if p['tool'] != 'gis' and src.bool(0.3):
            # sizes at the blocks of 5120 bytes
            p['nx'], p['ny'] = src.pick([(512, 10), (512, 20), (1024, 5), (5121, 1), (5119, 1), (256, 41), (3, 6000), (700, 300)])
        p['pieces'] = src.wpick((3, None), (2, []), (2, sorted(src.draw(1200) for _ in range(src.int(1, 3)))))
        p['ext'] = src.bool(0.5)
        p['damage'] = src.wpick((8, None), (1, ('cut', src.draw(1 << 24))), (1, ('wmo', src.draw(21), src.pick([0x80, 0xff, ord('x')]))),
                                (1, src.pick([('proj', 0), ('proj', 2), ('proj', 4), ('grid', 1), ('grid', 60000)])))
        t = p['tool']
        if t in ('info', 'sat'):
            p['z'] = src.wpick((2, None), (3, src.int(7, 9)))
            p['tailz'] = src.pick(['none', 'blocks', 'blocks', 'same'])
            p['minus_i'] = src.bool(0.3)
        if t == 'sat':
            p['mode'] = src.pick(['', '', '-n', '-g', '-g', '-i'])
            p['name'] = src.wpick((3, None), (2, ('-o', 'image')), (2, ('-p', 'sat')))
            p['silent'] = src.bool(0.2)
            p['dir'] = src.bool(0.3)
            p['conflict'] = src.wpick((30, None), (1, 'op'), (1, 'is'), (1, 'gn'))
            p['tail'] = src.wpick((3, b''), (2, src.data(src.int(1, 100))))
            p['nowhere'] = src.bool(0.03)
        if t == 'gis':
            form = src.pick(['none', 'flags', 'flags', 'names', 'names'])
            fl = [f for f in 'FOPXV' if src.bool(0.4)]
            if src.bool(0.65):
                fl.append('A')
            p['outs'] = (form, fl, src.pick([None, None, 'img', 'x.y']), src.bool(0.3), src.bool(0.3))
            p['rect'] = src.wpick((3, None), (4, [src.int(-200, 900) / 1000.0 for _ in range(2)] + [src.int(100, 1200) / 1000.0 for _ in range(2)]),
                                  (2, 'q'), (1, 'bad'))
            p['shrink'] = [src.int(-1000, 2500) / 1000.0 for _ in range(4)]
            p['tail'] = src.pick([b'', b'', b'trailer'])
            p['nowhere'] = src.bool(0.03)
        return p

    def pixels(self, p):
        n = p['nx'] * p['ny']
        kind, seed = p['data']
        if kind == 'zero':
            return bytes(n)
        out, x = bytearray(), seed or 1
        while len(out) < n:
            x = (x * 6364136223846793005 + 1442695040888963407) & (1 << 64) - 1
            out += struct.pack('>I', x >> 32)
        if kind == 'sparse':
            for i in range(n):
                if out[i] < 190:
                    out[i] = 0
        return bytes(out[:n])

    def head(self, p):
        proj, nx, ny = p['proj'], p['nx'], p['ny']
        y, mo, d, h, mi, s, hs = p['date']
        dm = p['damage']
        if dm and dm[0] == 'proj':
            proj = dm[1]
        if dm and dm[0] == 'grid':
            nx = min(65535, nx + dm[1])
        b = bytearray(512)
        b[0:4] = bytes(p['ids'])
        b[4:8] = struct.pack('>HH', p['ny'], p['nx'])
        b[8:16] = bytes([y, mo, d, h, mi, s, hs, proj])
        b[16:20] = struct.pack('>HH', nx, ny)
        b[20:26] = i24(p['lat1']) + i24(p['lon1'])
        f = dict(lat1=p['lat1'], lon1=p['lon1'], lov=p['lov'], dx=p['dx'], dy=p['dy'], lat2=0, lon2=0)
        if proj == 1:
            b[27:33] = i24(p['lat2']) + i24(p['lon2'])
            b[33:37] = struct.pack('>HH', p['dx'] & 0xffff, p['dy'] & 0xffff)
            f.update(lov=0, dx=p['dx'] & 0xffff, dy=p['dy'] & 0xffff, lat2=p['lat2'], lon2=p['lon2'])
        else:
            b[27:36] = i24(p['lov']) + u24(p['dx']) + u24(p['dy'])
            b[36] = p['flag'] | (128 if p['south'] else 0)
        b[37] = p['scan']
        b[38:41] = i24(p['latin'])
        b[41] = p['res']
        if p['rest']:
            r = p['rest'][:512 - 62]
            b[62:62 + len(r)] = r
        b[55:61] = i24(p['ur'][0]) + i24(p['ur'][1])
        w = bytearray(p['wmo'] + b'\r\r\n')
        if dm and dm[0] == 'wmo':
            w[dm[1]] = dm[2]
        good = all(c < 128 for c in w[:18]) and w[18:] == b'\r\r\n'
        secs = unix(1900 + y, mo, d, h, mi, s)
        stamp = '%d%02d%02d_%02d%02d' % (1900 + y, mo, d, h, mi)
        ids = '%d %d %d %d %d' % (tuple(p['ids']) + (p['res'],))
        scan = '%#x' % p['scan'] if p['scan'] else '0'
        ext = ' '.join(str(x) for x in (proj, b[36] >> 7, scan, f['lat1'], f['lon1'], f['lov'], f['dx'], f['dy'], nx, ny, p['res'],
                                        p['latin'], f['lat2'], f['lon2'], p['ur'][0], p['ur'][1]))
        name = bytes(w[:6]).decode('latin1').lower() + '_' + stamp
        return bytes(w) + bytes(b), good, secs, stamp, ids, ext, name

    def exec(self, p, ctx, d, argv, data):
        if p['pieces'] is None:
            with open(d + '/in.gini', 'wb') as f:
                f.write(data)
            if p['tool'] == 'info' and p['minus_i']:
                argv = argv + ['-i']
            return ctx.exec(argv + ['in.gini'], cwd=d)
        if not p['pieces']:
            return ctx.exec(argv, stdin=data, cwd=d)
        cuts = [x for x in p['pieces'] if x < len(data)]
        names = []
        os.mkdir(d + '/pieces')
        for i, (x, y) in enumerate(zip([0] + cuts, cuts + [len(data)])):
            names.append('pieces/%d' % i)
            with open(d + '/pieces/%d' % i, 'wb') as f:
                f.write(data[x:y])
        return ctx.exec(['sh', '-c', '(%s) | "$@"' % '; sleep 0.004; '.join('cat ' + n for n in names), 'sh'] + argv, cwd=d)

    def run(self, p, ctx):
        out = Outcome()
        d = ctx.dir()
        out.bad = getattr(self, p['tool'])(p, ctx, d, out)
        return out

    def listing(self, p, where):
        return sorted(x for x in os.listdir(where) if x not in ('in.gini', 'out', 'pieces'))

    # ---- nbspsatinfo, and nbspsat -i

    def info(self, p, ctx, d, out, sat=False):
        head, good, secs, stamp, ids, ext, name = self.head(p)
        z, verdict = p['z'], 'good' if good else 'bad'
        rest = self.pixels(p)
        if z is None:
            data = head + rest
            need = 533
        else:
            first = zlib.compress(head, z)
            data = head[:21] + first
            need = len(data)
            if p['tailz'] == 'blocks':
                data += b''.join(zlib.compress(rest[i:i + 5120], z) for i in range(0, len(rest), 5120))
            elif p['tailz'] == 'same':
                data += first
            if len(first) > 500:
                verdict = 'any'
        if p['damage'] and p['damage'][0] == 'cut':
            data = data[:p['damage'][1] % min(len(data), need + 20)]
            if len(data) < need:
                verdict = 'bad'
            elif z:
                # what is left of the second frame may be less than its mark
                verdict = 'any' if verdict == 'good' and len(data) < need + 2 else verdict
        a = ['-e'] if p['ext'] else []
        prog = 'nbspsat' if sat else 'nbspsatinfo'
        if sat:
            a.append('-i')
        r = self.exec(p, ctx, d, [ctx.cli(prog)] + a, data)
        want = '%s %s' % (ids, '%s %s.png' % (stamp, name) if sat else secs) + (' ' + ext if p['ext'] else '') + '\n'
        what = '%s %s of %s image' % (prog, ' '.join(a), 'a compressed' if z else 'an uncompressed')
        out.tags = [prog, 'refused' if verdict == 'bad' else 'reported']
        out.nontrivial = verdict != 'any'
        if r.crash:
            return '%s: %s' % (what, r.crash)
        if verdict == 'any':
            if r.code not in (0, 1) or r.code == 0 and r.out != want.encode():
                return '%s: exit status %d, printed %r, not %r' % (what, r.code, r.out, want)
        elif verdict == 'bad':
            if r.code != 1 or r.out:
                return '%s: exit status %d and printed %r for a damaged one' % (what, r.code, r.out)
        elif r.code != 0 or r.out != want.encode():
            return '%s: exit status %d, printed %r, not %r %s' % (what, r.code, r.out, want, r.err[-200:])

    # ---- nbspsat

    def sat(self, p, ctx, d, out):
        if p['mode'] == '-i' and not p['conflict']:
            return self.info(p, ctx, d, out, True)
        head, good, secs, stamp, ids, ext, name = self.head(p)
        rest = self.pixels(p)
        mode = p['mode'] if p['mode'] != '-i' else ''
        data = head + rest + p['tail']
        bad = not good
        if p['damage'] and p['damage'][0] == 'cut':
            data = data[:p['damage'][1] % len(data)]
            bad |= len(data) < 533 or len(data) < 533 + len(rest) and mode != '-g'
        if mode != '-g' and not rest:
            bad = True
        a = [mode] if mode else []
        pre = name
        if p['name']:
            a += list(p['name'])
        fname = name + ('' if mode == '-g' else '.png')
        if p['name'] and p['name'][0] == '-o':
            fname = p['name'][1]
        elif p['name']:
            fname = 'sat_' + stamp + ('' if mode == '-g' else '.png')
        where = d
        if p['nowhere']:
            a += ['-d', 'nowhere']
            bad = True
        elif p['dir']:
            os.mkdir(d + '/out')
            where = d + '/out'
            a += ['-d', 'out']
        if p['conflict'] == 'op':
            a += ['-o', 'x', '-p', 'y']
        elif p['conflict'] == 'is':
            a += ['-i', '-s']
        elif p['conflict'] == 'gn':
            a += ['-g', '-n']
        elif p['silent']:
            a += ['-s']
        if p['conflict']:
            bad = True
        if p['ext']:
            a.append('-e')
        r = self.exec(p, ctx, d, [ctx.cli('nbspsat')] + a, data)
        what = 'nbspsat ' + ' '.join(a)
        out.tags = ['nbspsat ' + (mode or 'png'), 'refused' if bad else 'converted']
        out.nontrivial = True
        if r.crash:
            return '%s: %s' % (what, r.crash)
        files = self.listing(p, where)
        if bad:
            if r.code != 1:
                return '%s: exit status %d for an image that cannot be converted' % (what, r.code)
            if r.out or files and not p['nowhere']:
                return '%s: refused the image, but printed %r and wrote %s' % (what, r.out, files)
            return
        if r.code != 0:
            return '%s: exit status %d: %s' % (what, r.code, r.err[-200:])
        want = '' if p['silent'] else '%s %s %s%s\n' % (ids, stamp, fname, ' ' + ext if p['ext'] else '')
        if r.out != want.encode():
            return '%s: printed %r, expected %r' % (what, r.out, want)
        if files != [fname]:
            return '%s: wrote %s, expected %s' % (what, files, fname)
        got = open(os.path.join(where, fname), 'rb').read()
        if mode != '-g':
            try:
                w, h, pix = png(got)
            except (ValueError, zlib.error, struct.error, TypeError) as e:
                return '%s: the png file cannot be read: %s' % (what, e)
            if (w, h) != (p['nx'], p['ny']) or pix != rest:
                return '%s: the png file has %d x %d pixels, expected %d x %d, or has others' % (what, w, h, p['nx'], p['ny'])
            return
        if got[:21] != head[:21]:
            return '%s: the file begins with %r' % (what, got[:21])
        left, frames = got[21:], []
        while left:
            z = zlib.decompressobj()
            if left[:2] != b'\x78\xda':
                return '%s: frame %d does not begin with the mark of a compressed frame' % (what, len(frames))
            try:
                frames.append(z.decompress(left))
            except zlib.error as e:
                return '%s: frame %d: %s' % (what, len(frames), e)
            if not z.eof:
                return '%s: frame %d has no end' % (what, len(frames))
            left = z.unused_data
        body = data[533:]
        if frames != [data[:533]] + [body[i:i + 5120] for i in range(0, len(body), 5120)]:
            return '%s: the frames have %s bytes, expected 533 and then the %d of the image in blocks of 5120, or have others' % (
                what, [len(f) for f in frames], len(body))

    # ---- nbspsatgis

    def gis(self, p, ctx, d, out):
        head, good, secs, stamp, ids, ext, name = self.head(p)
        pix = self.pixels(p)
        data = head + pix + p['tail']
        verdict = 'good' if good else 'bad'
        if p['damage'] and p['damage'][0] == 'cut':
            data = data[:p['damage'][1] % len(data)]
            if len(data) < 533 + len(pix):
                verdict = 'bad'
        if p['damage'] and (p['damage'][0] == 'proj' or p['damage'][0] == 'grid' and p['ny']):
            verdict = 'bad'
        pts = []
        pr = Proj(p)
        for j in range(p['ny'] - 1, -1, -1):
            for i in range(p['nx']):
                pts.append(pr.place(i, j) + (pix[len(pts)],))
        far = not all(-179.9 < x < 179.9 and abs(y) < 89 for x, y, l in pts)
        if pr.kind == 3:
            # points beyond the cut of the cone
            far |= any(abs(x - pr.lov / D) > 170 for x, y, l in pts)
        odd = p['nx'] < 2 or p['ny'] < 2
        if (far or odd) and verdict == 'good':
            verdict = 'any'
        a, where = [], d
        form, flags, base, dirn, dash = p['outs']
        if p['nowhere'] and verdict == 'good':
            base, verdict = 'nowhere/x', 'bad'
        elif dirn:
            os.mkdir(d + '/out')
            where = d + '/out'
            a += ['-d', 'out']
        b = base or name
        if base:
            a += ['-n', base]
        exts = dict(F='dbf', O='info', P='shp', X='shx', V='csv', A='asc')
        files = {}
        if form == 'names' and flags and not p['nowhere']:
            dashed = False
            for f in flags:
                n = 'my.' + exts[f]
                if f in 'VA' and dash and not dashed:
                    n, dashed = '-', True
                a += [dict(F='-f', O='-o', P='-p', X='-x', V='-v', A='-a')[f], n]
                files[exts[f]] = n
        else:
            fs = flags if form != 'none' and flags else 'FOPX'
            if form != 'none' and flags:
                a.append('-' + ''.join(flags))
            for f in fs:
                files[exts[f]] = b + '.' + exts[f]
        # the rectangle of the grid
        grid = None
        if pts:
            vis = [q for q in pts if q[2]]
            bb = [min(q[0] for q in pts), min(q[1] for q in pts), max(q[0] for q in pts), max(q[1] for q in pts)]
            llur = [min(q[0] for q in vis), min(q[1] for q in vis), max(q[0] for q in vis), max(q[1] for q in vis)] if vis else None
        else:
            bb = llur = None
        arg = None
        if 'asc' in files and p['rect'] is not None:
            w, h = (bb[2] - bb[0], bb[3] - bb[1]) if bb else (1, 1)
            if p['rect'] == 'bad':
                arg = '1,2,3'
            elif p['rect'] == 'q':
                arg = ','.join('%.3f' % (x * (w if i % 2 == 0 else h) / 5) for i, x in enumerate(p['shrink']))
                a.append('-q')
            elif bb:
                f = p['rect']
                arg = '%.4f,%.4f,%.4f,%.4f' % (bb[0] + f[0] * w, bb[1] + f[1] * h, bb[0] + f[2] * w, bb[1] + f[3] * h)
            if arg:
                a += ['-r', arg]
        if 'asc' in files and verdict == 'good':
            if p['rect'] == 'bad':
                verdict = 'bad'
            else:
                grid = self.grid(p, bb, llur, arg)
                if grid == 'any':
                    verdict = 'any'
                elif grid is None:
                    verdict = 'bad'
        r = self.exec(p, ctx, d, [ctx.cli('nbspsatgis')] + a, data)
        what = 'nbspsatgis %s (projection %d)' % (' '.join(a), p['proj'])
        out.tags = ['nbspsatgis %d' % p['proj'], verdict] + (['grid'] if grid and verdict == 'good' else [])
        out.nontrivial = verdict != 'any'
        if r.crash:
            return '%s: %s' % (what, r.crash)
        if verdict == 'any':
            return None if r.code in (0, 1) else '%s: exit status %d' % (what, r.code)
        if verdict == 'bad':
            return None if r.code == 1 else '%s: exit status %d for an image that cannot be converted' % (what, r.code)
        if r.code != 0:
            return '%s: exit status %d: %s' % (what, r.code, r.err[-200:])
        got = self.listing(p, where)
        if got != sorted(n for n in files.values() if n != '-'):
            return '%s wrote the files %s, expected %s' % (what, got, sorted(files.values()))
        for k in sorted(files):
            n = files[k]
            c = r.out if n == '-' else open(os.path.join(where, n), 'rb').read()
            try:
                if k == 'asc':
                    bad = self.asc(p, c, pr, pix, grid)
                elif k == 'info':
                    bad = self.gisinfo(p, c, secs, bb, llur)
                else:
                    bad = getattr(self, k)(p, c, pts, bb)
            except (struct.error, ValueError, IndexError, KeyError) as e:
                bad = 'cannot be read (%s)' % e
            if bad:
                return '%s: the %s file %s' % (what, k, bad)

    @staticmethod
    def near(a, b, eps=1e-7):
        return len(a) == len(b) and all(abs(x - y) < eps for x, y in zip(a, b))

    def grid(self, p, bb, llur, arg):
        """(lon1, lat1, lon2, lat2, cell), None when empty, 'any' when at the limit"""
        w, h = bb[2] - bb[0], bb[3] - bb[1]
        cell = min(w / (p['nx'] - 1), h / (p['ny'] - 1))
        if cell < 1e-6:
            return 'any'
        if arg is None or p['rect'] == 'q':
            if llur is None:
                if arg is None:
                    return None
                llur = [180.0, 180.0, -180.0, -180.0]
            q = list(llur)
            if arg:
                for i, x in enumerate(arg.split(',')):
                    q[i] += float(x) if i < 2 else -float(x)
        else:
            q = [float(x) for x in arg.split(',')]
        if abs(q[0] - q[2]) < EPS or abs(q[1] - q[3]) < EPS:
            return 'any'
        if q[0] > q[2] or q[1] > q[3]:
            return None
        if any(abs(x) > 360 for x in q) or max(abs(q[1]), abs(q[3])) > 88 or ((q[2] - q[0]) / cell + 2) * ((q[3] - q[1]) / cell + 2) > 60000:
            return 'any'
        return q + [cell]

    def asc(self, p, data, pr, pix, grid):
        lines = data.decode().split('\n')
        if lines.pop() != '':
            return 'does not end with a line'
        h = dict(l.split(' ', 1) for l in lines[:6])
        if list(h) != ['ncols', 'nrows', 'xllcorner', 'yllcorner', 'cellsize', 'nodata_value'] or h['nodata_value'] != '-1':
            return 'has the header %s' % lines[:6]
        lon1, lat1, lon2, lat2, cell = grid
        if not self.near([float(h['xllcorner']), float(h['yllcorner']), float(h['cellsize'])], [lon1, lat1, cell], 1.1e-6):
            return 'has the header %s, expected the corner %f %f and cells of %f' % (lines[:6], lon1, lat1, cell)
        nc, nr = int(h['ncols']), int(h['nrows'])
        for n, a, b in ((nc, lon1, lon2), (nr, lat1, lat2)):
            v = (b - a) / cell + 1
            if not (math.floor(v - EPS) <= n <= math.floor(v + EPS)):
                return 'has %d columns and %d rows, expected %.4f by %.4f' % (nc, nr, (lon2 - lon1) / cell + 1, (lat2 - lat1) / cell + 1)
        rows = lines[6:]
        if len(rows) != nr:
            return 'has %d rows, said %d' % (len(rows), nr)
        for r, row in enumerate(rows):
            v = [int(x) for x in row.split(' ')]
            if len(v) != nc:
                return 'has %d columns in row %d, said %d' % (len(v), r, nc)
            lat = lat1 + (nr - 1 - r) * cell
            for c in range(nc):
                ii, jj = pr.index(lon1 + c * cell, lat)
                ok = set()
                if ii < EPS or ii > p['nx'] - 1 - EPS or jj < EPS or jj > p['ny'] - 1 - EPS:
                    ok.add(-1)
                if ii > -EPS and ii < p['nx'] - 1 + EPS and jj > -EPS and jj < p['ny'] - 1 + EPS:
                    for i in {math.floor(ii + .5 - EPS), math.floor(ii + .5 + EPS)}:
                        for j in {math.floor(jj + .5 - EPS), math.floor(jj + .5 + EPS)}:
                            if 0 <= i < p['nx'] and 0 <= j < p['ny']:
                                ok.add(pix[(p['ny'] - 1 - j) * p['nx'] + i])
                if v[c] not in ok:
                    return 'has the value %d in row %d, column %d, that is point (%.4f, %.4f) of the grid, expected %s' % (v[c], r, c, ii, jj, sorted(ok))

    def csv(self, p, data, pts, bb):
        lines = data.decode().split('\n')
        if lines.pop() != '' or len(lines) != len(pts):
            return 'has %d lines, expected %d' % (len(lines), len(pts))
        for l, q in zip(lines, pts):
            x, y, v = l.split(',')
            if not self.near([float(x), float(y)], q[:2], 0.00051) or int(v) != q[2] or len(x.split('.')[1]) < 3:
                return 'has the line %r, expected %.4f %.4f %d' % (l, q[0], q[1], q[2])

    def header(self, data, words, bb):
        if struct.unpack('>I', data[:4])[0] != 9994 or struct.unpack('<II', data[28:36]) != (1000, 1):
            return 'has no header of a point shapefile'
        if struct.unpack('>I', data[24:28])[0] != words or len(data) != words * 2:
            return 'says a length of %d words, has %d bytes, expected %d words' % (struct.unpack('>I', data[24:28])[0], len(data), words)
        if not self.near(struct.unpack('<4d', data[36:68]), bb):
            return 'has the bounding box %s, expected %s' % (struct.unpack('<4d', data[36:68]), bb)

    def shp(self, p, data, pts, bb):
        bad = self.header(data, 50 + 14 * len(pts), bb)
        if bad:
            return bad
        for i, q in enumerate(pts):
            n, l = struct.unpack('>II', data[100 + 28 * i:108 + 28 * i])
            s, x, y = struct.unpack('<Idd', data[108 + 28 * i:128 + 28 * i])
            if (n, l, s) != (i + 1, 10, 1) or not self.near([x, y], q[:2]):
                return 'has %s at record %d, expected %s' % ((n, l, s, x, y), i + 1, q)

    def shx(self, p, data, pts, bb):
        bad = self.header(data, 50 + 4 * len(pts), bb)
        if bad:
            return bad
        for i in range(len(pts)):
            if struct.unpack('>II', data[100 + 8 * i:108 + 8 * i]) != (50 + 14 * i, 10):
                return 'has %s for record %d' % (struct.unpack('>II', data[100 + 8 * i:108 + 8 * i]), i + 1)

    def dbf(self, p, data, pts, bb):
        n, hs, rs = struct.unpack('<IHH', data[4:12])
        if n != len(pts):
            return 'has %d records, expected %d' % (n, len(pts))
        if data[32:43].split(b'\0')[0] != b'level' or data[43:44] != b'N' or data[49] or data[64] != 13 or hs != 65 or rs != 1 + data[48]:
            return 'has the header %r' % data[:hs]
        if not 0 <= len(data) - hs - rs * n <= 1:
            return 'has %d bytes for %d records' % (len(data) - hs, n)
        for i, q in enumerate(pts):
            t = data[hs + rs * i:hs + rs * i + rs]
            if t[:1] != b' ' or int(t[1:]) != q[2]:
                return 'has %r as record %d, expected %d' % (t, i + 1, q[2])

    def gisinfo(self, p, data, secs, bb, llur):
        v = dict(l.split(': ', 1) for l in data.decode().splitlines())
        w = dict(seconds=secs, sector=p['ids'][2], channel=p['ids'][3], resolution=p['res'], nx=p['nx'], ny=p['ny'])
        for k in w:
            if v.get(k) != str(w[k]):
                return 'says %s %s, expected %s' % (k, v.get(k), w[k])
        for k, q in (('bb', bb), ('llur', llur)):
            if q and not self.near([float(x) for x in v[k].split()], q, 1.1e-6):
                return 'says %s %s, expected %s' % (k, v[k], q)
