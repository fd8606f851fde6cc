"""Product names, spool paths and announcements follow the product's own header."""
import zlib
import gens, pipe, sbn
from pbt import Outcome

ALN = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'


class Check:
    pid = 'C03'
    title = 'Every product is named, filed and announced from its own headers'
    parts = ['core']
    drivers = ['d_core']
    quick, thorough = 8000, 300000
    rule = ('a case is a run of up to 24 single-frame products with generated headers; it counts as non-trivial when at '
            'least two products were accepted and they show at least two of the three name forms (station_id, with -awips, '
            'with +other)')
    assumptions = ['product sequence numbers are not zero and not reused within one run']

    def word(self, src, n, odd=0.05):
        if src.bool(odd):
            n = src.near(n)
        w = bytes(src.pick(ALN) for _ in range(n))
        if src.bool(odd) and w:
            p = src.draw(len(w))
            w = w[:p] + src.pick([b'-', b'/', b'.', b'\0', b'\xe9', b'_', b'\t', b'+']) + w[p + 1:]
        return w

    def header(self, src):
        if src.bool(0.4):
            h = src.pick(gens.IDS) + b' ' + src.pick(gens.STAS) + b' %06d' % src.draw(999999)
        else:
            tm = b'%06d' % src.draw(1000000)
            if src.bool(0.08):
                tm = src.pick([tm[:5], tm + b'1', b'12345Z', b''])
            h = self.word(src, 6) + b' ' + self.word(src, 4) + b' ' + tm
        if src.bool(0.3):
            h += b' ' + src.pick([b'RRA', b'COR', b'PAD', b'P01', b'AAA12Z', b'AAA12ZZ', b'A-1', b'', b'COR X'])
        h += src.wpick((8, b'\r\r\n'), (1, b'\n'), (1, b'\r\n'), (1, b''), (1, b' \r\r\n'))
        return h

    def second(self, src):
        k = src.draw(6)
        if k == 0:
            return b''
        if k == 1:
            return src.pick(gens.SECOND)
        if k == 2:
            return (self.word(src, src.int(1, 6)) + b'      ')[:6] + b'\r\r\n'
        if k == 3:
            return self.word(src, src.int(1, 9)) + src.pick([b' ', b'\r\r\n', b'', b'.'])
        if k == 4:
            return src.data(src.draw(16), 'zt')
        return (self.word(src, src.int(2, 5)) + b' ' + self.word(src, 2) + b'      ')[:src.int(5, 8)] + b'\r\r\n'

    def gen(self, src):
        n = src.int(1, 24)
        s0 = src.pick([1, 1000, 1 << 20, 2147483640, 4000000000 - 30])
        prods = []
        for k in range(n):
            d = self.header(src) + self.second(src)
            form = src.pick(['plain', 'ctrl', 'zplain', 'zctrl'])
            c = src.bool(0.4)
            if c:
                d = gens.ccb(src) + d
            body = src.data(src.size(0, 5, 60, 300))
            kw = dict(seq=s0 + k, tt=7, nfrag=src.pick([0, 1]), ptype=src.draw(128), pcat=src.draw(256),
                      pcode=src.draw(65536))
            if 'ctrl' in form:
                kw['ctrl'] = d[:58] if len(d) <= 58 or src.bool(0.7) else d[:80]
                kw['data'] = body or b'x'
                if form[0] == 'z':
                    kw['data'] = zlib.compress(body or b'x')
            else:
                kw['data'] = d + body
                if form[0] == 'z':
                    kw['data'] = zlib.compress(d + body)
            if form[0] == 'z':
                kw['tt'] |= sbn.COMPRESSED
            prods.append((src.draw(8), kw))
        return {'prods': prods}

    def run(self, case, ctx):
        r = pipe.Run(ctx)
        m = sbn.Model(spool=r.spool)
        for ch, kw in case['prods']:
            f = sbn.frame(**kw)
            r.frame(ch, f)
            m.feed(ch, f)
        r.drain()
        o = r.run()
        out = Outcome()
        kinds = {('-' in a['name'], '+' in a['name']) for a in m.started}
        out.nontrivial = len(m.started) > 1 and len(kinds) > 1
        out.tags = ['products %d' % (len(m.started) // 5 * 5)] + ['form ' + '-+'[i] for k in kinds for i in (0, 1) if k[i]]
        out.evals = len(case['prods'])
        out.bad = o.bad
        if not out.bad:
            if m.ann != o.ann:
                i = next((i for i in range(min(len(m.ann), len(o.ann))) if m.ann[i] != o.ann[i]),
                         min(len(m.ann), len(o.ann)))
                out.bad = 'announcement %d: expected %r, got %r' % (i, m.ann[i:i + 1], o.ann[i:i + 1])
            elif m.sann != o.sann:
                out.bad = 'server announcements: expected %r, got %r' % (m.sann, o.sann)
            else:
                out.bad = pipe.diff_files(m.files, o.files())
        return out
