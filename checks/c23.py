"""The programs that identify products: nbspgrib, nbspgrib2, nbsprad2info and nbspradinfo."""
import os, struct, subprocess, threading, time
from pbt import Outcome

WMO = b'SDUS53 KWBC 010203\r\r\n'
GPK = b'\001\r\r\n123 \r\r\n'
CCB = b'@\x0c' + b'\0' * 22


def century():
    return time.gmtime().tm_year // 100 * 100


def p16(v):
    return struct.pack('>H', v & 0xffff)


def nids_header(code=19, days=15000, secs=0, length=1000, div=-1, lat=18000, lon=-66000, height=2000, pcode=None, mode=2, rest=b''):
    h = struct.pack('>HHIIHHH', code, days, secs, length, 1, 2, 3)
    h += struct.pack('>hiiHHH', div, lat, lon, height & 0xffff, code if pcode is None else pcode, mode)
    return (h + rest + b'\0' * 120)[:120]


class Check:
    pid = 'C23'
    title = 'The identification tools report exactly what the product says'
    parts = ['cli']
    drivers = []
    quick, thorough = 4000, 200000
    rule = ('a case counts as non-trivial when the tool had to report the fields of a well formed product behind some header or '
            'refuse a damaged one')
    assumptions = ['the year of a grib edition 1 product is one of the present century', 'times before the year 2106']

    # ---- generation

    def val(self, src, bits):
        return src.wpick((2, src.pick([0, 1, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1])), (5, src.draw(1 << bits)))

    def date(self, src):
        if src.bool(0.2):
            return [src.draw(256) for _ in range(4)]
        return [src.int(1, 12), src.int(1, 31), src.int(0, 23), src.int(0, 59)]

    def wmo(self, src):
        return src.pick([WMO, b'YEPE98 KWBE 312359\r\r\n', b'LUGA99 KWNO 010000\r\r\n'])

    def gen(self, src):
        kind = src.pick(['grib', 'grib2', 'rad2', 'nids', 'nids'])
        c = dict(kind=kind, stdin=src.wpick((3, None), (1, []), (3, sorted(src.int(0, 400) for _ in range(src.int(1, 4))))))
        cut = None
        if src.bool(0.12):
            cut = src.int(0, 260)
        a = []
        if kind in ('grib', 'grib2'):
            c['ext'] = src.bool(0.6)
            h = src.pick(['', '', '-l', '-m', '-n'])
            c['h'] = h
            pre = {'': CCB + self.wmo(src), '-l': b'', '-m': GPK + self.wmo(src), '-n': self.wmo(src)}[h]
            mark = src.wpick((14, b'GRIB'), (1, src.pick([b'BUFR', b'GRIP', b'XRIB', b'GXIB'])))
            own = 1 if kind == 'grib' else 2
            ed = src.wpick((8, own), (1, src.pick([0, 3 - own, 3, 255, 258 & 255])))
            c.update(pre=pre, mark=mark, ed=ed)
            if kind == 'grib':
                c['pds'] = dict((k, self.val(src, 8)) for k in ('center', 'sub', 'model', 'grid', 'ftu', 'p1', 'p2', 'tri'))
                c['yy'] = src.int(0, 99)
                c['date'] = self.date(src)
                c['fill'] = src.data(36)
                c['tail'] = src.data(src.int(0, 300))
            else:
                secs = []
                order = src.wpick((8, [1, 3, 4]), (2, [1, 2, 3, 4]), (2, [1, 4]), (1, [3, 1, 4]), (1, [1, 2, 3, 4, 5, 6, 7]), (1, [4]),
                                  (1, [1, 4, 1, 4]), (1, [1, 3]), (1, [1, 1, 4]), (1, [0, 1, 255, 4]))
                for n in order:
                    s = dict(n=n, size=src.wpick((5, src.int(22, 90)), (1, src.int(5, 26)), (1, src.int(200, 5000)), (1, src.int(60000, 70000))),
                             fill=src.draw(256), center=self.val(src, 16), sub=self.val(src, 16), year=src.wpick((5, src.int(1990, 2100)), (1, self.val(src, 16))),
                             date=self.date(src), model=self.val(src, 8), ftu=self.val(src, 8), p1=self.val(src, 32))
                    if n not in (1, 4) and s['size'] < 5:
                        s['size'] = 5
                    secs.append(s)
                c['secs'] = secs
                c['badlen'] = None
                if src.bool(0.1):
                    c['badlen'] = (src.draw(len(secs)), src.pick([0, 1, 4, 5, 17, 18, 21, 0x7fffffff, 0x80000000, 0xffffffff]))
        elif kind == 'rad2':
            c['skip'] = src.wpick((2, None), (2, src.pick([1, 4, 24, 4095, 4096, 4097, 8192, 9000, 20000])))
            c['t'] = src.bool(0.4)
            c['tape'] = src.pick([b'ARCHIVE2', b'AR2V0001', b'AR2V0006', b'x'])
            c['tape'] = (c['tape'] + b'________')[:8]
            c['ext'] = src.pick([b'001', b'999', b'12a'])
            c['julian'] = src.wpick((5, src.int(10000, 24000)), (1, src.pick([1, 2, 49710])))
            c['ms'] = src.wpick((5, src.int(0, 86399999)), (2, src.pick([0, 999, 1000, 86399999])))
            c['icao'] = src.pick([b'KJGX', b'TJUA', b'kabc', b'K1Z9'])
            c['tail'] = src.data(src.int(0, 300))
        else:
            c['gpk'] = src.bool(0.3)
            c['skip'] = src.wpick((3, None), (2, 'C'), (3, src.pick([1, 11, 24, 30, 4096, 5000, 8192, 9000, 20000])))
            c['w'] = list(src.pick([b'SDUS53 KTOP 312359', b'NXUS63 PHFO 010000', b'0', b'~~~~~~~~~~~~~~~~~~']).ljust(18, b'x') + b'\r\r\n')
            c['a'] = list(src.pick([b'N0RTOP', b'n1pjua', b'N0Q A1', b'~!    ']) + b'\r\r\n')
            c['whack'] = src.wpick((12, None), (2, (src.draw(30), src.pick([0, 7, 10, 13, 31, 127, 255, 32, 65]))))
            c['nids'] = dict(code=self.val(src, 16), days=src.wpick((5, src.int(10000, 30000)), (1, src.pick([1, 2, 24856, 49710]))),
                             secs=src.wpick((4, src.int(0, 86399)), (1, src.pick([0, 86399]))), length=self.val(src, 32),
                             div=src.wpick((10, -1), (2, src.pick([0, 1, -2, 0x789c, 255, -256, 0x42 * 256]))),
                             lat=src.wpick((5, src.int(-90000, 90000)), (1, src.pick([0, 1, -1, 999, -2147483648, 2147483647]))),
                             lon=src.wpick((5, src.int(-180000, 180000)), (1, src.pick([0, 5, -5, -256, -65536]))),
                             height=src.wpick((4, src.int(0, 12000)), (1, src.int(32767, 65535))), pcode=self.val(src, 16), mode=src.pick([0, 1, 2, 2, 3, 258]))
            c['rest'] = src.data(86)
            c['t'], c['l'], c['q'] = src.bool(0.3), src.bool(0.3), src.bool(0.3)
            c['tail'] = src.data(src.int(0, 300))
        c['cut'] = cut
        return c

    # ---- what must come out: (exit status, output)

    def grib(self, c):
        F = bytearray(c['fill'])
        p = c['pds']
        F[0:4], F[7] = c['mark'], c['ed']
        b = 8
        for o, v in ((4, p['center']), (25, p['sub']), (5, p['model']), (6, p['grid']), (12, c['yy']), (13, c['date'][0]), (14, c['date'][1]),
                     (15, c['date'][2]), (16, c['date'][3]), (17, p['ftu']), (18, p['p1']), (19, p['p2']), (20, p['tri'])):
            F[b + o] = v
        data = c['pre'] + bytes(F) + c['tail']
        if c['cut'] is not None:
            data = data[:c['cut']]
        if c['mark'] != b'GRIB' or len(data) < len(c['pre']) + 36:
            return data, 1, None
        if c['ed'] == 1:
            o = '1 %d %d %d %d %04d%s' % (p['center'], p['sub'], p['model'], p['grid'], century() + c['yy'], ''.join('%02d' % x for x in c['date']))
            e = ' %d %d %d %d' % (p['ftu'], p['p1'], p['p2'], p['tri'])
        else:
            o = '%d 0 0 0 0 0000000000' % c['ed']
            e = ' 0 0 0 0'
        return data, 0, o + (e if c['ext'] else '') + '\n'

    def grib2(self, c):
        data = bytearray(c['pre'] + c['mark'] + b'\0\0\0' + bytes([c['ed']]) + b'\0' * 8)
        ok = True
        v = dict(center=0, sub=0, year=0, date=[0] * 4, model=0, ftu=0, p1=0)
        found = end = False
        for i, s in enumerate(c['secs']):
            size = s['size']
            b = bytearray([s['fill']]) * max(size, 40)
            if s['n'] == 1:
                b[5:9] = struct.pack('>HH', s['center'], s['sub'])
                b[12:14] = p16(s['year'])
                b[14:18] = bytes(s['date'])
            elif s['n'] == 4:
                b[13] = s['model']
                b[17] = s['ftu']
                b[18:22] = struct.pack('>I', s['p1'])
            said = size
            if c['badlen'] and c['badlen'][0] == i:
                said = c['badlen'][1]
            b[0:4], b[4] = struct.pack('>I', said), s['n']
            data += b[:size]
            if found or end:
                continue
            if said < 5 or said >= 1 << 31 or (s['n'] == 1 and said < 18) or (s['n'] == 4 and said < 22):
                ok, end = False, True
            elif said != size:
                ok = end = None         # what comes next are not sections: not judged, unless it is too short
                if said > 1 << 20:
                    ok = False
                break
            elif s['n'] == 1:
                v.update(center=s['center'], sub=s['sub'], year=s['year'], date=s['date'])
            elif s['n'] == 4:
                v.update(model=s['model'], ftu=s['ftu'], p1=s['p1'])
                found = len(data)
        whole = len(data)
        if not found:
            ok = False if ok is not None else None
        if c['cut'] is not None:
            data = data[:c['cut']]
            if ok and len(data) < found:
                ok = False
        data = bytes(data)
        if c['mark'] != b'GRIB' or len(data) < len(c['pre']) + 16:
            return data, 1, None
        if c['ed'] != 2:
            return data, 0, None if c['ext'] else '%d 0 0 0 0 0000000000\n' % c['ed']
        if ok is None:
            return data, None, None
        if not ok:
            return data, 1, None
        return data, 0, '2 %d %d %d 0 %02d%s' % (v['center'], v['sub'], v['model'], v['year'], ''.join('%02d' % x for x in v['date'])) + (
            ' %d %d 0 0' % (v['ftu'], v['p1']) if c['ext'] else '') + '\n'

    def rad2(self, c):
        data = b'S' * (c['skip'] or 0) + c['tape'] + b'.' + c['ext'] + struct.pack('>II', c['julian'], c['ms']) + c['icao'] + c['tail']
        if c['cut'] is not None:
            data = data[:c['cut'] + (c['skip'] or 0) - 30 if c['cut'] + (c['skip'] or 0) > 30 else 0]
        if len(data) < (c['skip'] or 0) + 24:
            return data, 1, None
        secs = (c['julian'] - 1) * 86400 + c['ms'] // 1000
        if secs >= 1 << 32:
            return data, None, None
        icao = c['icao'].decode().lower()
        if c['t']:
            return data, 0, '%d %s' % (secs, icao)
        return data, 0, '%s %s %d %d %d %s' % (c['tape'].decode(), c['ext'].decode(), c['julian'], c['ms'], secs, icao)

    def nids(self, c):
        n = c['nids']
        H = bytearray(c['w'] + c['a'])
        if c['whack']:
            H[c['whack'][0]] = c['whack'][1]
        skip = 24 if c['skip'] == 'C' else c['skip'] or 0
        pre = b'\0' * skip
        alnum = bytes(H[:1]).isalnum()
        body = bytes(H) + nids_header(n['code'], n['days'], n['secs'], n['length'], n['div'], n['lat'], n['lon'], n['height'], n['pcode'], n['mode'], c['rest'])
        data = pre + (GPK if c['gpk'] else b'') + body + c['tail']
        if c['cut'] is not None:
            data = data[:c['cut'] + skip]
        need = skip + (11 if c['gpk'] else 0) + 150
        if len(data) < need:
            return data, 1, None
        if not c['gpk'] and not alnum:
            return data, None, None
        good = all(32 <= H[i] < 127 for i in list(range(18)) + list(range(21, 27))) and H[18:21] == b'\r\r\n' and H[27:30] == b'\r\r\n'
        if not good:
            return data, 1, None
        if n['div'] != -1:
            return data, 2 if c['q'] else 1, None
        secs = (n['days'] - 1) * 86400 + n['secs']
        if secs >= 1 << 32:
            return data, None, None
        if c['t'] and c['l']:
            o = '%d %d' % (secs, n['length'])
        elif c['t']:
            o = '%d' % secs
        elif c['l']:
            o = '%d' % n['length']
        else:
            o = '%.3f %.3f %d %d %d %d' % (n['lat'] / 1000.0, n['lon'] / 1000.0, n['height'], secs, n['mode'], n['pcode'])
        return data, 0, o

    def run(self, c, ctx):
        data, code, text = getattr(self, c['kind'])(c)
        k = c['kind']
        prog = {'grib': 'nbspgrib', 'grib2': 'nbspgrib2', 'rad2': 'nbsprad2info', 'nids': 'nbspradinfo'}[k]
        a = []
        if k in ('grib', 'grib2'):
            a = ([c['h']] if c['h'] else []) + (['-e'] if c['ext'] else [])
        else:
            a = ['-C'] if c['skip'] == 'C' else ['-c', str(c['skip'])] if c['skip'] else []
            a += ['-' + x for x in 'tlq' if c.get(x)]
        out = Outcome()
        out.tags = [k, 'refused' if code else 'reported' if text is not None else 'not judged']
        out.nontrivial = code is not None and (code != 0 or text is not None)
        d = ctx.dir()
        argv = [ctx.cli(prog)] + a
        if c['stdin'] is None:
            with open(d + '/f', 'wb') as f:
                f.write(data)
            r = ctx.exec(argv + ['f'], cwd=d)
        elif not c['stdin']:
            r = ctx.exec(argv, stdin=data, cwd=d)
        else:
            # in pieces, as from a pipe
            cuts = [x for x in c['stdin'] if x < len(data)]
            names = []
            for i, (x, y) in enumerate(zip([0] + cuts, cuts + [len(data)])):
                names.append('p%d' % i)
                with open(d + '/p%d' % i, 'wb') as f:
                    f.write(data[x:y])
            r = ctx.exec(['sh', '-c', '(%s) | "$@"' % '; sleep 0.004; '.join('cat ' + n for n in names), 'sh'] + argv, cwd=d)
            out.tags.append('pieces')
        what = '%s %s' % (prog, ' '.join(a))
        if r.crash:
            out.bad = '%s: %s' % (what, r.crash)
        elif code is not None and r.code != code:
            out.bad = '%s: exit status %d, expected %d (%s)' % (what, r.code, code, (r.err or r.out)[-200:])
        elif code == 0 and text is not None and r.out != text.encode():
            out.bad = '%s: printed %r, expected %r' % (what, r.out, text)
        elif code and r.out:
            out.bad = '%s: refused the product, but printed %r' % (what, r.out)
        return out
