"""The frame parser: accepts exactly the well-formed frames, extracts them exactly, survives anything."""
import struct, zlib
import gens, sbn
from pbt import Outcome, hx, unhx

PERCASE = 30


class Check:
    pid = 'C02'
    title = 'Only well-formed frames are accepted, and they are decoded exactly'
    parts = ['core']
    drivers = ['d_core']
    quick, thorough = 8000, 500000
    rule = ('a case is a sequence of frames; it counts as non-trivial when the reference parser accepts at least one data '
            'frame and refuses at least one frame of the sequence')
    assumptions = ['a frame is at most 5200 bytes, the size of the receive buffer']

    def one(self, src):
        fr = gens.product(src, src.pick([1, 77, 2 ** 31, 2 ** 32 - 1]) + src.draw(3))
        raw = sbn.frame(sbnseq=src.pick([0, 1, 2 ** 31, 2 ** 32 - 1]), stream=src.draw(256), **src.pick(fr))
        k = src.wpick((3, 'as is'), (3, 'header bytes'), (2, 'cut'), (1, 'grow'), (2, 'sizes'), (1, 'cmd'), (1, 'random'),
                      (2, 'fix cksum'), (1, 'zdata'), (1, 'tiny'), (2, 'wmo'))
        b = bytearray(raw)
        if k in ('header bytes', 'fix cksum'):
            for _ in range(src.int(1, 3)):
                p = src.draw(min(len(b), 70 if k == 'header bytes' else 14))
                b[p] = src.pick([b[p] ^ (1 << src.draw(8)), src.draw(256), 0, 255])
            if k == 'fix cksum':
                b[14:16] = struct.pack('>H', sum(b[:14]) & 0xffff)
        elif k == 'cut':
            b = b[:src.pick([src.draw(len(b) + 1), len(b) - 1, 16, 31, 32, 67, 68, 15])]
        elif k == 'grow':
            b += bytes(src.int(1, 40))
        elif k == 'sizes':
            off = src.pick([0, 1, 20, 21, 22, 23, 24, 25, 44, 45, 58, 59, 60, 100, 500, 5000, 65535, src.draw(100)])
            n = src.pick([0, 1, 20, 21, 24, 45, 58, 59, 60, 200, 5000 - 52, 5200 - 68])
            d = gens.header(src) + gens.body(src)
            d = (d * (n // len(d) + 1))[:n]
            if src.bool(0.5):
                d = gens.ccb(src) + d[24:] if n >= 24 else d
            b = bytearray(sbn.frame(block=src.draw(2), off=off, data=d, tt=src.pick([3, 7, 2, 1, 19])))
        elif k == 'cmd':
            b = bytearray(sbn.frame(cmd=src.draw(256), nonblk=bytes(src.draw(50))))
        elif k == 'random':
            b = bytearray(src.data(src.size(40, 200, 5200), 'rz'))
            if len(b) > 16 and src.bool(0.7):
                b[4] = 3
                b[14:16] = struct.pack('>H', sum(b[:14]))
        elif k == 'zdata':
            d = gens.header(src) + gens.body(src)
            if src.bool(0.2):
                d = d[:1] * src.near(5200, 5200, 23, 24)
            z = zlib.compress(d)
            if src.bool(0.3):
                z = z[:src.draw(len(z) + 1)]
            b = bytearray(sbn.frame(tt=19, data=z[:5132]))
        elif k == 'tiny':
            d = src.data(src.draw(26), 'taz')
            b = bytearray(sbn.frame(tt=3, data=d))
        elif k == 'wmo':
            d = bytearray(gens.header(src) + src.pick(gens.SECOND) + b'data')
            for _ in range(src.int(1, 2)):
                p = src.draw(min(len(d), 40))
                d[p] = src.pick(b' \n\r\0aA0-/+.\xe9@\t')
            b = bytearray(sbn.frame(tt=3, data=d) if src.bool(0.5) else sbn.frame(tt=3, ctrl=d, data=b'x'))
        return bytes(b[:5200])

    def gen(self, src):
        return [self.one(src) for _ in range(src.int(1, PERCASE))]

    def run(self, case, ctx):
        prog = ['unpack ' + hx(f) for f in case]
        res = ctx.drive('d_core', prog)
        out = Outcome(key=None)
        out.evals = len(case)
        acc = rej = 0
        bad = res.crash()
        groups = []
        for l in res.lines:
            if l[0] == 'u':
                groups.append({'u': l[1:]})
            elif groups and l[0] != 'END':
                groups[-1][l[0]] = l[1:]
        for i, f in enumerate(case):
            try:
                p = sbn.parse(f)
            except sbn.Bad as e:
                p = None
                rej += 1
            else:
                acc += p['cmd'] == 3
            if i < len(groups) and not bad:
                b = self.judge(f, p, groups[i])
                if b:
                    bad = 'frame %d of %d bytes %s: %s' % (i, len(f), f[:80].hex(), b)
        if not bad and len(groups) != len(case):
            bad = 'not every frame has a result'
        if bad and len(groups) < len(case):
            bad += ' (at frame %d: %s)' % (len(groups), case[len(groups)][:80].hex())
        out.bad = bad
        out.nontrivial = acc > 0 and rej > 0
        out.tags = ['accepted data frames'] * acc + ['refused frames'] * rej
        return out

    def judge(self, f, p, g):
        u = [int(x) for x in g['u']]
        if p is None:
            return None if u[0] != 0 else 'accepted, but it is not a well-formed frame'
        if u[0] != 0:
            return 'refused with %d, but it is a well-formed frame' % u[0]
        want = [p['cmd'], p['stream'], None, p['sbnseq']]
        if p['cmd'] == 3:
            want += [p['block'], p['seq'], p['tt']]
            want += [p['flags'], p['ptype'], p['pcat'], p['pcode'], p['nfrag'], p['orig']] if p['block'] == 0 else [None] * 6
            want += [int(p['z'])]
        for n, w, x in zip(('command', 'data stream', '', 'SBN sequence', 'block', 'product sequence', 'transfer type',
                            'status flags', 'type', 'category', 'code', 'fragments', 'original sequence', 'compressed'),
                           want, u[1:]):
            if w is not None and w != x & 0xffffffff:
                return '%s decoded as %d, not %d' % (n, x, w)
        if p['cmd'] != 3:
            return None
        if unhx(g['ctrlhdr'][0]) != p['ctrl']:
            return 'wrong control header %s' % g['ctrlhdr'][0][:100]
        if g['frdata'][0][0] != 'x' or unhx(g['frdata'][0]) != p['data']:
            return 'wrong data %s' % g['frdata'][0][:100]
        if p['block'] == 0:
            if int(g['ccb'][0]) != int(p['ccb']):
                return 'communications block %s, expected %d' % (g['ccb'][0], p['ccb'])
            w = sbn.wmo_header(p['hdrfrom'], p['ccb'], bool(p['ctrl']))
            if w is None:
                return None if g['wmo'][0] != '0' else 'a header was found where there is none: %s' % g['wmo']
            if g['wmo'][0] != '0':
                return 'the header %r was not found' % (w,)
            got = tuple(unhx(x) for x in g['wmo'][1:])
            if got != w:
                return 'header decoded as %r, not %r' % (got, w)
        return None
