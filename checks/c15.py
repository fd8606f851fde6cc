"""The built-in server: what NBS1 and NBS2 clients receive."""
import net, pipe, srv
from gens import IDS, STAS
from pbt import Outcome


class Check:
    pid = 'C15'
    title = 'Every NBS1/NBS2 client receives each product announced while it is connected, once, in order, intact'
    parts = ['core']
    drivers = ['d_srv']
    quick, thorough = 700, 20000
    rule = ('a case counts as non-trivial when at least two clients of the server were served and there was a file of '
            'several blocks, a client that stalled, left or came back, or the memory spool')
    assumptions = ['product sequence numbers are not zero', 'no product is empty']

    def gen(self, src):
        nc = src.wpick((2, 1), (3, 2), (2, 3), (1, src.int(4, 6)))
        stall = src.bool(0.12)
        spool = src.wpick((5, 1), (2, 2))
        types = [src.pick([srv.NBS1, srv.NBS2]) for _ in range(nc)]
        ops = []
        seq = 0
        here = set()
        state = {}
        for k in range(nc):
            if src.bool(0.75):
                ops.append(['open', k])
                here.add(k)
        if here:
            ops.append(['ready'] + sorted(here))
        for _ in range(src.int(1, 14)):
            w = src.draw(20)
            if w < 12 or not here:
                seq += src.int(1, 3)
                ops.append(['product', seq, src.draw(len(IDS)), src.draw(len(STAS)), src.draw(320000),
                            src.wpick((6, 300), (4, 5000), (2, 30000), (2, 65536 * (1 if spool == 1 else 0) + 3000),
                                      (1, 140000 if spool == 1 else 9000)), src.draw(1 << 30), src.draw(4)])
                if src.bool(0.1):
                    ops[-1][5] = src.pick([65536, 65535, 65537, 131072]) if spool == 1 else 65536
                continue
            k = src.pick(sorted(here))
            if w < 14:
                ops.append(['say', k, src.data(src.draw(40))])
            elif w < 16:
                ops.append(['pause', k])
                state[k] = 1
            elif w < 17 and state.get(k):
                ops.append(['sleep', src.int(1, 10)])
                ops.append(['resume', k])
                state[k] = 0
            elif w < 19:
                ops.append(['bye', k, src.draw(2)])
                here.discard(k)
            else:
                new = [k for k in range(nc) if k not in here]
                if new:
                    k = src.pick(new)
                    ops.append(['open', k])
                    ops.append(['ready', k])
                    here.add(k)
                    state[k] = 0
        if stall and here:
            k = src.pick(sorted(here))
            ops.append(['pause', k])
            for _ in range(src.int(1, 3)):
                seq += 1
                ops.append(['product', seq, 0, 0, 0, src.pick([60000, 140000, 240000]), src.draw(1 << 30), 0])
            ops.append(['sleep', src.int(150, 400)])
            ops.append(['resume', k])
            for _ in range(src.draw(3)):
                seq += 1
                ops.append(['product', seq, 0, 0, 0, 2000, src.draw(1 << 30), 0])
        return dict(types=types, stall=stall, spool=spool, ops=ops, small=[src.bool(0.3) for _ in range(nc)],
                    sndbuf=src.pick([-1, 4096, 20000]))

    @staticmethod
    def body(n, salt, kind):
        import random
        r = random.Random(salt)
        if kind == 0:
            return (b'line %d\r\r\n' % salt) * (n // 9 + 1)
        return r.randbytes(n)

    def run(self, case, ctx):
        st = dict(spooltype=case['spool'], servertype=3, server_so_sndbuf=case['sndbuf'], memfile_minsize=1 << 20,
                  mspoolbdb_nslots=8, mspoolbdb_dbcache_mb=16)
        if case['stall']:
            st.update(client_write_timeout_ms=40, client_write_timeout_retry=1)
        r = srv.Server(ctx, st)
        types = case['types']
        gaps = {k: [] for k in range(len(types))}
        nconn = {k: 0 for k in gaps}
        here, paused = set(), set()
        left = 0
        for op in case['ops']:
            k = op[1] if len(op) > 1 else None
            if op[0] == 'open':
                if k in here:
                    continue
                r.client(k, '127.1.1.%d' % (k + 1), srv.IDENT[types[k]], case['stall'],
                         3000 if case['small'][k] or case['stall'] else 0)
                gaps[k].append(nconn[k])
                nconn[k] += 1
                here.add(k)
                if k in paused:
                    r.op('resume', k)
                    paused.discard(k)
            elif op[0] == 'ready':
                ks = [x for x in op[1:] if x in here]
                for x in ks:
                    if x in paused:
                        r.op('resume', x)
                        paused.discard(x)
                if ks:
                    r.ready(ks)
            elif op[0] == 'product':
                _, seq, i, s, t, n, salt, kind = op
                hdr = IDS[i] + b' ' + STAS[s] + b' %06d\r\r\n' % t
                r.product(srv.simple(seq, hdr, self.body(n, salt, kind)[:max(n - len(hdr), 1)]))
            elif op[0] == 'sleep':
                r.op('sleep', op[1])
            elif k not in here:
                continue
            elif op[0] == 'say':
                r.op('say', k, 'x' + bytes(op[2]).hex())
            elif op[0] == 'pause':
                r.op('pause', k)
                paused.add(k)
            elif op[0] == 'resume':
                r.op('resume', k)
                paused.discard(k)
            elif op[0] == 'bye':
                r.op('bye', k, op[2])
                here.discard(k)
                left += 1
        for k in sorted(paused):
            r.op('resume', k)
        n1 = r.marker()
        n2 = r.marker()
        for k in sorted(here):
            r.op('until', k, 'x' + n2.hex(), 20000)
        r.op('dump')
        for k in sorted(here):
            r.op('bye', k, 0)
        r.op('srvstop', 15000)
        r.op('fds')
        o = r.run()
        out = Outcome()
        out.bad = o.bad
        if out.bad:
            return out
        out.bad = self.judge(case, r, o, gaps, here)
        multi = any(len(c) > net.BLK for _, c in o.hist)
        out.nontrivial = len(o.streams) >= 2 and (multi or left > 0 or case['stall'] or case['spool'] != 1)
        out.tags = ['clients %d' % len(o.streams), 'spool %d' % case['spool'], 'stall' if case['stall'] else 'no stall',
                    'left' if left else 'all stay', 'interrupted and resent' if self.resent else 'not resent']
        return out

    resent = 0

    def judge(self, case, r, o, gaps, here):
        self.resent = 0
        if o.unready:
            return 'a client that identified itself was not served any product'
        u1 = srv.nbs1_units(o)
        u2 = srv.nbs2_units(o, srv.nbs2_pathsize(r.spool))
        last = len(o.hist) - 1
        untl = {int(k): v for k, v in o.res.get('until')}
        for k, ss in sorted(o.streams.items()):
            u = u1 if case['types'][k] == srv.NBS1 else u2
            g = gaps[k]
            if case['stall']:
                # connections made by hand are not known by number when the client also connects by itself
                g = [0]
                if len(gaps[k]) > 1:
                    g = range(len(ss))
            elif any(e in (1, 2) for e, _ in ss):
                return 'the server closed connection %d of client %d' % (
                    [e in (1, 2) for e, _ in ss].index(True), k)
            bad, first, pos, res = srv.follow(u, ss, g)
            self.resent += res
            if bad:
                return 'client %d (%s): %s' % (k, 'NBS%d' % case['types'][k], bad)
            if k in here and (first is None or pos < last):
                return 'client %d (%s) received products up to number %s of %d and then nothing more' % (
                    k, 'NBS%d' % case['types'][k], pos, len(o.hist))
        if o.res.get('srvstop') != [['1']]:
            return 'the server did not end when asked to'
        f0, f1 = o.res.get('fds')
        if f1[0] != '0':
            return '%s files of the spool are still open after all the clients have gone' % f1[0]
        return None
