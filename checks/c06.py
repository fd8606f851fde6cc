"""The status file and the missing-products log account for every frame and every product."""
import c01, gens, pipe, sbn
from pbt import Outcome

FIELDS = ('received', 'good', 'jumps', 'bad', 'size', 'transmitted', 'completed', 'missed', 'retrans', 'retrans_c',
          'retrans_p', 'retrans_i', 'retrans_r', 'rejected', 'aborted', 'badprod')


class Check:
    pid = 'C06'
    title = 'The reception statistics and the missing log account for every frame and product'
    parts = ['core']
    drivers = ['d_core']
    quick, thorough = 2000, 80000
    rule = ('a case counts as non-trivial when at least four of: missed products, rejected products, aborted products, bad '
            'frames, jumps in the frame numbers, retransmissions, undecodable products, several report periods happened')
    assumptions = ['product sequence numbers are not zero and not reused within one run',
                   'one reader at a time (the counters are not atomic across readers)']

    def gen(self, src):
        c = c01.Check().gen(src)
        frames = []
        pos = [0] * len(c['chans'])
        sn = [src.pick([0, 1, 500, 2 ** 31 - 4]) for _ in c['chans']]
        order = c['order'] or [i for i in range(len(c['chans'])) for _ in c['chans'][i]]
        for ch in order:
            f = bytearray(c['chans'][ch][pos[ch]])
            pos[ch] += 1
            sn[ch] = max(0, sn[ch] + src.wpick((8, 1), (1, 2), (1, 0), (1, 7), (1, -3)))
            if len(f) >= 16 and sum(f[:14]) & 0xffff == (f[14] << 8 | f[15]):
                f[8:12] = sn[ch].to_bytes(4, 'big')
                f[14:16] = (sum(f[:14]) & 0xffff).to_bytes(2, 'big')
                if len(f) >= 68 and src.bool(0.2) and f[4] == 3:
                    f[37] |= 16
                    f[52:56] = src.pick([b'\0\0\0\0', bytes(f[28:32]), b'\0\0\0\5'])
            frames.append((ch, bytes(f)))
            if src.bool(0.06):
                frames.append((-1, b''))
        return {'frames': frames, 'patt': src.wpick((3, None), (1, '^kwbc'), (1, '.,!kwbc,!tjsj'), (1, ''))}

    def run(self, case, ctx):
        patt = pipe.with_sentinel(case['patt'])
        r = pipe.Run(ctx, dict(patt_accept=patt))
        m = sbn.Model(patt=patt, spool=r.spool)
        want, last, nsent = [], {k: 0 for k in FIELDS}, 0

        def sync(op):
            nonlocal nsent, last
            s = pipe.sentinel(nsent)
            nsent += 1
            r.drain()
            m.feed(pipe.SENT_CH, s)
            r.op(op)
            now = {k: m.st[k] for k in FIELDS}
            want.append([now[k] - last[k] for k in FIELDS])
            if op == 'period':
                last = now
        for ch, f in case['frames']:
            if ch < 0:
                sync('period')
                continue
            r.frame(ch, f)
            m.feed(ch, f)
        sync('report')
        sync('period')
        r.op('stop')
        o = r.run()
        out = Outcome()
        s = m.st
        kinds = [k for k in ('missed', 'rejected', 'aborted', 'bad', 'jumps', 'retrans', 'badprod') if s[k]]
        if len(want) > 2:
            kinds.append('periods')
        out.nontrivial = len(kinds) >= 4
        out.tags = kinds
        out.bad = o.bad
        if out.bad:
            return out
        got = [[int(x) for x in l[1:]] for l in o.log('status')]
        if len(got) != len(want):
            out.bad = 'the status file has %d lines, expected %d' % (len(got), len(want))
        elif got != want:
            i = next(i for i in range(len(got)) if got[i] != want[i])
            out.bad = 'report %d differs: ' % i + ', '.join(
                '%s expected %d got %d' % (k, a, b) for k, a, b in zip(FIELDS, want[i], got[i]) if a != b)
        elif sorted(m.missing) != sorted(o.missing()):
            out.bad = 'missing log: expected %r, got %r' % (sorted(m.missing), sorted(o.missing()))
        return out
