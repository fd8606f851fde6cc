"""The reader threads: frames multicast on the loopback interface, through the real readers and the real pipeline."""
import os
import gens, pipe, sbn
from pbt import Outcome, hx, unhx
from c01 import Check as C01

FAULTS = ((7, None), (1, 'drop'), (2, 'dup'), (1, 'swap'), (2, 'corrupt'), (2, 'trunc'), (1, 'cmd'), (1, 'nofinal'))
SEPS = [' ', ':', '\t', ' : ', '::', '\n']


def group(i):
    p = os.getpid() & 0x3fffff
    return '239.%d.%d.%d' % (p >> 14, p >> 6 & 255, (p & 63) << 2 | i)


class Check:
    pid = 'C26'
    title = 'Each channel receives the frames of its own multicast group, all of them, in order'
    parts = ['core']
    drivers = ['d_mcast']
    quick, thorough = 1200, 60000
    rule = ('a case counts as non-trivial when frames were sent to at least two groups, or to one that is not configured besides, or '
            'when the configuration of the channels was one that has to be refused')
    assumptions = ['the network loses none of the datagrams: the sender stays a few frames ahead of the readers',
                   'no two channels have the same group and port', 'no frame is larger than 5200 bytes']

    def gen(self, src):
        ports = [src.int(20000, 60000)]
        ports += [ports[0] + src.int(1, 50), ports[0] - src.int(1, 50)]
        if src.bool(0.12):
            n = src.wpick((2, src.int(1, 9)), (1, src.int(10, 12)), (1, 0))
            k = n + src.wpick((3, 0), (2, src.pick([-1, 1])))
            return dict(mode='config', n=n, k=max(0, k), ports=ports, sep=src.pick(SEPS), iface=src.wpick(
                (4, 'ip'), (3, 'name'), (2, 'badip'), (2, 'badname'), (1, 'both')))
        nch = src.wpick((2, 1), (4, src.int(2, 4)), (1, src.int(5, 9)))
        pairs = src.shuffle([(i, j) for i in range(4) for j in range(3)])
        seq0 = src.pick([1, 500, 70000, 2 ** 31 - 4])
        chans, k = [], 0
        for c in range(nch):
            frames = []
            for _ in range(src.int(0, 3)):
                k += 1
                fr = [sbn.frame(**f) for f in gens.product(src, seq0 + k, maxfrag=5)]
                flt = src.wpick(*FAULTS)
                i = src.draw(len(fr))
                if flt == 'drop':
                    del fr[i]
                elif flt == 'dup':
                    fr.insert(i, fr[i])
                elif flt == 'swap' and len(fr) > 1:
                    i = src.draw(len(fr) - 1)
                    fr[i], fr[i + 1] = fr[i + 1], fr[i]
                elif flt == 'corrupt':
                    b = bytearray(fr[i])
                    b[src.draw(16)] ^= 1 << src.draw(8)
                    fr[i] = bytes(b)
                elif flt == 'trunc':
                    fr[i] = fr[i][:src.draw(len(fr[i]))] if src.bool(0.7) else fr[i] + b'xx'
                elif flt == 'cmd':
                    fr.insert(i, sbn.frame(cmd=src.pick([5, 10, 30, 0]), nonblk=b'\0' * 32))
                elif flt == 'nofinal':
                    fr[-1] = C01.retag(fr[-1], sbn.END)
                frames += [f for f in fr if 0 < len(f) <= 5200]
            chans.append(frames)
        order = []
        for c in range(nch):
            order += [c] * len(chans[c])
        if src.bool(0.6):
            order = src.shuffle(order)
        noise = []
        for _ in range(src.wpick((2, 0), (3, src.int(1, 4)))):
            k += 1
            noise.append((src.draw(len(order) + 1), src.draw(64), src.wpick((3, 'stray'), (1, 'empty')),
                          [sbn.frame(**f) for f in gens.product(src, seq0 + k, maxfrag=2)]))
        return dict(mode='frames', ports=ports, pairs=pairs[:nch], spare=pairs[nch:], chans=chans, order=order, noise=noise,
                    sep=src.pick(SEPS), iface=src.pick(['ip', 'name', 'both']), serial=src.bool(0.4),
                    rcv=src.pick([0, 200000, 2000000]), pause=src.draw(len(order)) if order and src.bool(0.008) else None)

    def iface(self, kind):
        return dict(ip=(None, '127.0.0.1'), name=('lo', None), both=('nosuchif', '127.0.0.1'), badip=('lo', '127.0.0.x'),
                    badname=('nosuchif', None))[kind]

    def run(self, case, ctx):
        out = Outcome()
        name, ip = self.iface(case['iface'])
        st = dict(feedmode=1, ifname=name, ifip=ip, broadcast_read_timeout_secs=4, udprcvsize=case.get('rcv', 0))
        sep, ports = case['sep'], case['ports']
        if case['mode'] == 'config':
            n, k = case['n'], case['k']
            st['multicastip'] = sep.join(group(i % 4) for i in range(n))
            st['multicastport'] = sep.join(str(ports[i % 3]) for i in range(k))
            r = pipe.Run(ctx, st)
            r.prog[-1] = 'feeds'
            res = ctx.drive('d_mcast', r.prog, r.dir, 20)
            good = n == k and 1 <= n <= 9 and case['iface'] not in ('badip', 'badname')
            out.nontrivial = not good
            out.tags = ['config', 'refused' if not good else 'accepted']
            got = res.get('feeds')
            out.bad = res.crash() or (None if got and (got[0] == ['0']) == good else 'multicastip with %d addresses, multicastport with '
                                      '%d ports, interface %s: %s' % (n, k, case['iface'], 'refused' if good else 'not refused'))
            return out
        if case['pause'] is not None:
            st['broadcast_read_timeout_secs'] = 1
        st['multicastip'] = sep.join(group(i) for i, j in case['pairs'])
        st['multicastport'] = sep.join(str(ports[j]) for i, j in case['pairs'])
        r = pipe.Run(ctx, st)
        r.prog[-1] = 'readers'
        m = sbn.Model(spool=r.spool)
        pos = [0] * len(case['chans'])
        noise = {}
        for at, w, kind, fr in case['noise']:
            noise.setdefault(at, []).append((w, kind, fr))
        last = None
        for n, c in enumerate(case['order'] + [None]):
            for w, kind, fr in noise.get(n, ()):
                if kind == 'empty':
                    i, j = case['pairs'][w % len(case['pairs'])]
                    r.op('mcsend', group(i), ports[j], 0, hx(b''))
                elif case['spare']:
                    i, j = case['spare'][w % len(case['spare'])]
                    for f in fr:
                        r.op('mcsend', group(i), ports[j], 0, hx(f))
            if c is None:
                break
            if case['serial'] and last not in (None, c):
                r.op('mcwait', 9000)
            last = c
            if case['pause'] == n:
                r.op('sleep', 1150)
            f = case['chans'][c][pos[c]]
            pos[c] += 1
            i, j = case['pairs'][c]
            r.op('mcsend', group(i), ports[j], 1, hx(f))
            m.feed(c, f)
        r.op('mcwait', 9000)
        r.drain()
        r.op('mclog')
        r.op('mcstop')
        r.op('stop')
        o = r.run('d_mcast', 40)
        out.nontrivial = sum(bool(f) for f in case['chans']) >= 2 or bool(case['noise'] and case['order'])
        out.tags = ['channels %d' % len(case['chans']), 'serial' if case['serial'] else 'concurrent', 'interface %s' % case['iface']]
        if case['noise']:
            out.tags.append('other datagrams')
        if case['pause'] is not None:
            out.tags.append('pause')
        out.bad = o.bad or self.judge(case, m, o)
        return out

    def judge(self, case, m, o):
        got = [[] for _ in range(9)]
        for c, h in o.res.get('mcf'):
            got[int(c)].append(unhx(h))
        for c in range(9):
            want = case['chans'][c] if c < len(case['chans']) else []
            if got[c] != want:
                k = next((k for k in range(min(len(want), len(got[c]))) if want[k] != got[c][k]), min(len(want), len(got[c])))
                return 'channel %d: %d frames were sent to its group, %d processed, frame %d is not the one sent' % (c, len(want), len(got[c]), k)
        if ['0'] in o.res.get('mcwait'):
            return 'the readers did not process all the frames'
        if o.res.get('mcstop') != [['1']]:
            return 'the readers did not end when told to'
        d = pipe.diff_files(m.files, o.files())
        if d:
            return d
        key = lambda l: {s: [a for a in l if a[0] == s] for s in {a[0] for a in l}}
        if case['serial']:
            key = lambda l: l
        if key(m.ann) != key(o.ann):
            return 'announcements for the filters differ: expected %r, got %r' % (m.ann, o.ann)
        if key(m.sann) != key(o.sann):
            return 'announcements for the server differ: expected %r, got %r' % (m.sann, o.sann)
        return None
