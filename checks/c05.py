"""Retransmissions: processed exactly when the original was not delivered."""
import gens, pipe, sbn
from pbt import Outcome


class Check:
    pid = 'C05'
    title = 'A retransmission is processed exactly when its original was not delivered'
    parts = ['core']
    drivers = ['d_core']
    quick, thorough = 3000, 80000
    rule = ('a case is a history of originals (some incomplete), retransmissions, retransmissions of retransmissions and '
            'expiries of the record; it counts as non-trivial when at least two complete retransmissions arrived and they '
            'did not all have the same fate or the record expired in between')
    assumptions = ['product sequence numbers are not zero and not reused within one run']

    def gen(self, src):
        hist, seqs, nx = [], [], src.pick([10, 4000000, 3000000000])
        for _ in range(src.int(2, 14)):
            k = src.wpick((4, 'orig'), (5, 'rtx'), (1, 'expire'))
            if k == 'expire':
                hist.append(('expire', src.draw(2)))
                continue
            nx += src.pick([1, 1, 2, 256, 65536])
            orig = 0
            if k == 'rtx':
                orig = src.pick(seqs[-6:]) if seqs and src.bool(0.9) else src.pick([999, 1, 0, nx, nx + 1])
            fr = gens.product(src, nx, maxfrag=3, forms=((1, 'plain'), (1, 'ctrl')))
            if k == 'rtx':
                fr[0]['flags'] = src.pick([sbn.RTX, sbn.RTX | 1, 0xff]) if src.bool(0.9) else src.pick([0, 1, 15])
            elif src.bool(0.1):
                fr[0]['flags'] = src.pick([1, 8, 15])
            fr[0]['orig'] = orig
            if k == 'orig' and src.bool(0.1):
                fr[0]['orig'] = src.pick(seqs) if seqs else 5
            if src.bool(0.35) and len(fr) > 1:
                del fr[src.int(1, len(fr) - 1)]
            seqs.append(nx)
            hist.append(('prod', src.draw(3), [sbn.frame(**f) for f in fr]))
        return {'hist': hist, 'slots': src.wpick((5, 4096), (1, 0)), 'default': src.pick([1, 0]),
                'patt': src.wpick((4, None), (1, ''), (1, '^kwbc,^tjsj,^kddc'), (1, '.,!kwbc'))}

    def run(self, case, ctx):
        r = pipe.Run(ctx, dict(rtxdb_slots=case['slots'], rtxdb_default_process=case['default'],
                               rtxdb_patt_accept=case['patt']))
        m = sbn.Model(spool=r.spool, rtxp=case['patt'], rtxslots=case['slots'] != 0, rtxdefault=case['default'])
        exp = 0
        for h in case['hist']:
            if h[0] == 'expire':
                if case['slots'] == 0:
                    continue
                r.drain()
                if h[1]:
                    r.op('rtxflag')
                    r.drain()
                else:
                    r.op('rtxtruncate')
                m.rtx_truncate()
                exp += 1
                continue
            for f in h[2]:
                r.frame(h[1], f)
                m.feed(h[1], f)
        r.drain()
        r.op('report')
        r.op('stop')
        o = r.run()
        out = Outcome()
        fate = {a['path'] in m.files for a in m.started if a['orig'] and a['seq'] in [x[0] for x in m.rtxlog]}
        out.nontrivial = len(m.rtxlog) > 1 and (len(fate) > 1 or exp > 0)
        out.tags = ['slots %d' % case['slots']] + ['expired'] * bool(exp) + ['recovered'] * bool(m.st['retrans_r']) + \
            ['ignored'] * bool(m.rtx_ignored)
        out.bad = o.bad or self.judge(case, m, o)
        return out

    def judge(self, case, m, o):
        d = pipe.diff_files(m.files, o.files())
        if d:
            return d
        if pipe.per_channel(m.ann) != pipe.per_channel(o.ann):
            return 'announcements differ: expected %r, got %r' % (m.ann, o.ann)
        if sorted(m.rtxlog) != sorted(o.rtxlog()):
            return 'retransmission log: expected %r, got %r' % (m.rtxlog, o.rtxlog())
        if sorted(m.missing) != sorted(o.missing()):
            return 'missing log: expected %r, got %r' % (m.missing, o.missing())
        l = [int(x) for x in o.log('status')[-1]]
        got = dict(retrans=l[9], retrans_c=l[10], retrans_p=l[11], retrans_i=l[12], retrans_r=l[13])
        want = {k: m.st[k] for k in got}
        if want != got:
            return 'retransmission counters: expected %r, got %r' % (want, got)
        return None
