"""The slave side of the announcement protocol (NBS2): real slave threads relaying from scripted masters."""
import net, pipe, sbn
from pbt import Outcome, unhx

FAULTS = ((12, None), (1, 'ident'), (2, 'size'), (1, 'cksum'), (2, 'cut'), (1, 'noterm'), (1, 'noname'), (1, 'tiny'))
NAMES = [b'kwbc_sdus53-n0rddc', b'tjsj_fxus61+rra', b'knes_tige01', b'', b'x', b'kwbc_abcdef-ghijkl', b'k b']


class Check:
    pid = 'C13'
    title = 'An announcement slave relays every announcement of its masters exactly'
    parts = ['core']
    drivers = ['d_net']
    quick, thorough = 3000, 60000
    rule = ('a case counts as non-trivial when at least two announcements were relayed and there was a fault (malformed or '
            'cut packet), an announcement of another size than the local one, or a second master')
    assumptions = []

    def gen(self, src):
        nm = src.wpick((3, 1), (2, 2), (1, 3))
        ms, seq = [], 0
        for m in range(nm):
            conns, cur = [], []
            for _ in range(src.int(1, 8)):
                seq += 1
                name = src.pick(NAMES)
                n = src.wpick((3, 20), (1, 0), (1, 1), (2, 40))
                a = dict(seq=seq + src.pick([0, 1000000, 3000000000]), name=name, ptype=src.draw(256), pcat=src.draw(256),
                         pcode=src.draw(256), ch=src.draw(256),
                         path=(b'/s/' + b'y' * n)[:src.wpick((5, 99), (1, 0))])
                # how much of the largest packet the padding of this master's paths leaves free
                a['pad'] = src.wpick((5, 0), (1, 1), (2, src.draw(40)), (1, 10000))
                f = src.wpick(*FAULTS)
                x = {}
                if f == 'ident':
                    x['ident'] = src.pick([1, 0, 3, 0x02000000])
                elif f == 'size':
                    x['size'] = src.pick([0, 1, 26, 27, 28, 'max+1', 'max-1', 0xfffffff4, 0xffffffff, 0x80000000, 0xfffffff8])
                elif f == 'cksum':
                    x['cksum'] = src.draw(1 << 32)
                elif f == 'noterm':
                    x['raw'] = b'\0\0\0\1\1\2\3\4' + name.ljust(19, b'\0') + b'/tmp/x'
                elif f == 'noname':
                    x['raw'] = b'\0\0\0\1\1\2\3\4' + b'k' * 19 + b'/tmp/x\0\0'
                elif f == 'tiny':
                    x['raw'] = src.data(src.draw(28))
                a['x'] = x
                if f == 'cut':
                    a['cut'] = src.draw(60)
                cur.append(a)
                if f == 'cut' or src.bool(0.08):
                    conns.append(cur)
                    cur = []
            conns.append(cur)
            ms.append([(c, src.draw(1 << 30)) for c in conns])
        return {'ms': ms, 'fq': src.pick([None, None, '^k', 'sdus']), 'sq': src.pick([None, None, '!x,knes'])}

    def stream(self, conn, room):
        """room: the largest path field of the local announcements (terminator included)"""
        b = b''
        for a in conn:
            x = dict(a['x'])
            if isinstance(x.get('size'), str):
                x['size'] = 27 + room + (1 if x['size'] == 'max+1' else -1)
            p = net.nbs2(a['seq'], a['name'], a['path'], a['ptype'], a['pcat'], a['pcode'], a['ch'],
                         pathsize=max(room - a['pad'], len(a['path']) + 1), **x)
            b += p[:a['cut']] if 'cut' in a else p
        return b

    def run(self, case, ctx):
        import random
        from pbt import Src
        fq = pipe.with_sentinel(case['fq'])
        r = net.Slave(ctx, ['2,%s'] * len(case['ms']), dict(filterq_patt_accept=fq, serverq_patt_accept=case['sq']))
        room = len(r.spool) + 4 + 36 + 2 + 1
        ms, resized = [], False
        for k, conns in enumerate(case['ms']):
            m = net.Nbs2Model(12 + 27 + room, case['fq'], case['sq'])
            segs = []
            for c, sd in conns:
                b = self.stream(c, room)
                resized = resized or any(a['pad'] for a in c)
                segs.append(net.segments(Src(random.Random(sd)), b))
                m.feed(b)
            r.serve(k, segs)
            ms.append(m)
        for k in range(len(ms)):
            r.served(k)
        r.drain()
        o = r.run()
        out = Outcome()
        drops = any(m.drops for m in ms)
        out.nontrivial = sum(len(m.ann) for m in ms) > 1 and (drops or resized or len(ms) > 1)
        out.tags = ['masters %d' % len(ms)] + ['malformed'] * drops + ['other sizes'] * resized
        out.bad = o.bad or self.judge(ms, o)
        return out

    def judge(self, ms, o):
        for what, want, got in (('filters', [m.ann for m in ms], o.ann), ('server', [m.sann for m in ms], o.sann)):
            rest = list(got)
            for w in want:
                i = 0
                for a in w:
                    while i < len(rest) and rest[i] != a:
                        i += 1
                    if i == len(rest):
                        return 'the announcement %r for the %s is missing or out of order; got %r' % (a, what, got)
                    del rest[i]
            if rest:
                return 'announcements for the %s that the masters did not send: %r' % (what, rest)
        return None
