"""The file system spool keeps the configured number of the most recent products, across restarts."""
import gens, pipe, sbn
from pbt import Outcome, hx, unhx

SMIN = 1024     # the smallest number of files the program accepts to keep


class Ring:
    def __init__(self, n):
        self.k, self.s = [None] * n, 0

    def put(self, key):
        old, self.k[self.s] = self.k[self.s], key
        self.s = (self.s + 1) % len(self.k)
        return old

    def resized(self, n):
        r = Ring(n)
        r.k[:len(self.k)] = self.k
        r.s = self.s
        return r


class Check:
    pid = 'C07'
    title = 'The file spool holds exactly the newest products, up to the configured number'
    parts = ['core']
    drivers = ['d_spool', 'd_core']
    quick, thorough = 8000, 150000
    rule = ('a case is a history of stored products with saves, restarts (also with more files to keep) and damaged save '
            'files; it counts as non-trivial when at least one product was removed to make room and at least one restart '
            'happened, or when it ran the whole receiver with at least one product removed')
    assumptions = ['no two products of a history have the same path']

    def gen(self, src):
        if src.bool(0.01):
            # the whole receiver
            segs = [(src.int(1, 40) if src.bool(0.3) else src.near(SMIN, SMIN, 600, 1500), src.bool(0.5))
                    for _ in range(src.int(1, 3))]
            return {'whole': True, 'segs': segs, 'slots': src.pick([1, SMIN, SMIN + 1, 1100, 0])}
        n = src.int(1, 1 << src.draw(5))
        ops = []
        for _ in range(src.int(1, 20)):
            k = src.wpick((6, 'put'), (2, 'restart'), (1, 'grow'), (1, 'shrink'), (1, 'cut'), (1, 'keysize'))
            if k == 'put':
                ops.append(('put', src.int(1, n * 2 + 2)))
            elif k == 'cut':
                ops.append(('cut', src.pick([-1, 0, 10, 39, 40, -5, -100]) if src.bool(0.7) else -src.int(1, 2000)))
            else:
                ops.append((k, src.int(1, 9)))
        return {'whole': False, 'n': n, 'ks': src.pick([16, 64, 101, 300]), 'ops': ops}

    def run(self, case, ctx):
        return self.whole(case, ctx) if case['whole'] else self.lib(case, ctx)

    def lib(self, case, ctx):
        n, ks = case['n'], case['ks']
        d = ctx.dir()
        f = hx((d + '/save').encode())
        prog = ['sdinit %d %d' % (n, ks)]
        want = [('sdinit', '1')]
        m = Ring(n)
        k = rest = gone = 0
        for op, a in case['ops']:
            if op == 'put':
                ks_ = []
                for _ in range(a):
                    k += 1
                    key = '/s/%d' % k
                    if k % 3 == 0:
                        key = (key + '_' * ks)[:ks - 1]
                    ks_.append(key)
                    old = m.put(key)
                    if old:
                        gone += 1
                        want.append(('del', hx(old.encode())))
                    want.append(('ins', '0', str(m.s)))
                prog.append('sdins ' + ' '.join(hx(x.encode()) for x in ks_))
                continue
            prog += ['sdwrite ' + f, 'sdfree']
            want += [('sdwrite', '0'), ('sdfree',)]
            rest += 1
            if op == 'grow':
                n += a
                m = m.resized(n)
            if op == 'cut':
                prog += ['trunc %s %d' % (f, a)]
                want.append(('trunc', '0', None))
            if op in ('shrink', 'cut', 'keysize'):
                nn, kk = n, ks
                if op == 'shrink':
                    nn = max(1, n - a)
                elif op == 'keysize':
                    kk = ks + a if a % 2 else ks - 1
                prog += ['sdinit %d %d' % (nn, kk), 'sdread ' + f]
                want += [('sdinit', '1'), ('sdread', '0' if op == 'shrink' and nn == n else '1')]
                if op == 'shrink' and nn == n:
                    continue
                # the program starts again with nothing recorded
                prog.append('sdinit %d %d' % (n, ks))
                want.append(('sdinit', '1'))
                m = Ring(n)
                continue
            prog += ['sdinit %d %d' % (n, ks), 'sdread ' + f]
            want += [('sdinit', '1'), ('sdread', '0')]
        r = ctx.drive('d_spool', prog, d)
        out = Outcome(nontrivial=rest > 0 and gone > 0, tags=['restarts %d' % min(rest, 5), 'removed %d' % min(gone, 9)])
        out.bad = r.crash()
        if not out.bad:
            got = [tuple(l) for l in r.lines[:-1]]
            for i, w in enumerate(want):
                g = got[i] if i < len(got) else None
                if g is None or len(g) != len(w) or any(a is not None and a != b for a, b in zip(w, g)):
                    show = lambda t: None if t is None else [unhx(x).decode() if x and x[0] == 'x' else x for x in t]
                    out.bad = 'step %d: expected %r, got %r' % (i, show(w), show(g))
                    break
            else:
                if len(got) > len(want):
                    out.bad = 'unexpected: %r' % (got[len(want)],)
        return out

    def whole(self, case, ctx):
        d = ctx.dir()
        slots = case['slots']
        eff = 0 if slots == 0 else max(slots, SMIN)
        ring = Ring(eff) if eff else None
        live, seq, gone, nsent = {}, 10, 0, 0
        for n, clean in case['segs']:
            r = pipe.Run(ctx, dict(spooldb_slots=slots, rtxdb_slots=0), dir=d)
            r.nsent = nsent
            for _ in range(n):
                seq += 1
                f = sbn.frame(seq=seq, tt=7, nfrag=0, data=b'SDUS53 %s 010101\r\r\nX%d' % (gens.STAS[seq % 6], seq))
                m = sbn.Model(spool=r.spool)
                m.feed(0, f)
                r.frame(0, f)
                (p, c), = m.files.items()
                if ring:
                    old = ring.put(p)
                    if old:
                        live.pop(old, None)
                        gone += 1
                live[p] = c
            s = pipe.sentinel(nsent)
            m = sbn.Model(spool=r.spool)
            m.feed(0, s)
            sp, = m.files
            if ring:
                old = ring.put(sp)
                if old:
                    live.pop(old, None)
                    gone += 1
            r.drain()
            nsent += 1
            r.op('stop')
            o = r.run()
            if o.bad:
                return Outcome(bad=o.bad)
            bad = pipe.diff_files(live, o.files())
            if bad:
                return Outcome(bad='after %d products, %d to keep: %s' % (seq - 10, eff, bad))
        return Outcome(nontrivial=gone > 0, tags=['whole receiver', 'removed' if gone else 'none removed'])
