"""The memory spool: a ring of stores, newest products kept, readers always get exactly the product they opened."""
from pbt import Outcome, hx


class Model:
    def __init__(self, ndb, maxsize):
        self.ndb, self.max = ndb, maxsize
        self.db = [{} for _ in range(ndb)]
        self.cur, self.size = 0, 0

    def put(self, k, v):
        n = v[1]
        if n > self.max:
            return False
        if self.size + n > self.max:
            self.cur = (self.cur + 1) % self.ndb
            self.db[self.cur].clear()
            self.size = 0
        self.db[self.cur][k] = v
        self.size += n
        return True

    def get(self, k):
        for i in range(self.ndb):
            d = self.db[(self.cur - i) % self.ndb]
            if k in d:
                return d[k]
        return None

    def clear(self):
        for d in self.db:
            d.clear()
        self.cur, self.size = 0, 0

    def drop_oldest(self):
        self.cur = (self.cur + 1) % self.ndb
        self.db[self.cur].clear()
        self.size = 0


class Check:
    pid = 'C08'
    title = 'The memory spool returns what was stored and evicts only the oldest products'
    parts = ['core']
    drivers = ['d_spool']
    quick, thorough = 5000, 100000
    rule = ('a case is a history of stores, opens, partial reads, closes and clearings; it counts as non-trivial when an '
            'open product was read after the store had evicted something, or (concurrent form) when readers opened products '
            'while writers stored')
    assumptions = ['each store is given at least twice the memory its products need']

    def gen(self, src):
        if src.bool(0.1):
            return {'thr': True, 'nw': src.int(1, 3), 'nr': src.int(1, 6), 'nk': src.int(4, 60),
                    'size': src.pick([0, 100, 3000, 20000]), 'rounds': src.int(10, 60), 'chunk': src.pick([1000, 100, 65536]),
                    'slots': src.int(1, 4), 'ndb': src.int(1, 4), 'per': src.pick([64, 40]), 'home': src.bool(0.3)}
        per = src.pick([1, 4, 20, 60])
        ndb = src.int(1, 4)
        nslots = src.int(1, 4)
        mx = (1 << 20) // 128 * per
        m = Model(ndb, mx)
        ops, keys, openk, tag, cnt = [], [], {}, 0, 0
        for _ in range(src.int(4, 60)):
            k = src.wpick((6, 'ins'), (5, 'open'), (6, 'read'), (3, 'close'), (1, 'trunc'), (1, 'truncold'))
            if k == 'ins':
                tag += 1
                if keys and src.bool(0.1):
                    key = src.pick(keys[-8:])
                else:
                    key = str(src.pick([1, 1000, 4294900000]) + tag)
                    keys.append(key)
                n = src.pick([src.draw(mx // 3 + 1), src.draw(3000), mx // 2, mx // 2 + 1, mx // 3 * 2, mx - src.draw(3), mx + src.int(1, 100), mx // 4])
                ops.append(('ins', key, tag, n))
            elif k == 'open' and keys:
                ops.append(('open', src.pick(keys[-12:]) if src.bool(0.95) else '777'))
            elif k == 'read':
                ops.append(('read', src.draw(4), src.pick([1000000, 1, 4096, 7777])))
            elif k == 'close':
                ops.append(('close', src.draw(4)))
            elif k in ('trunc', 'truncold'):
                ops.append((k,))
        return {'thr': False, 'per': per, 'ndb': ndb, 'slots': nslots, 'ops': ops, 'home': src.bool(0.3)}

    def run(self, case, ctx):
        d = ctx.dir()
        home = '-'
        if case['home']:
            home = hx(d.encode())
        prog = ['mscreate %s %d %d %d %d' % (home, 1, case['per'], case['ndb'], case['slots'])]
        if case['thr']:
            prog.append('msthreads %d %d %d %d %d %d' % (case['nw'], case['nr'], case['nk'], case['size'], case['rounds'],
                                                        case['chunk']))
            prog.append('msdestroy')
            r = ctx.drive('d_spool', prog, d, timeout=20)
            out = Outcome(bad=r.crash(), tags=['concurrent'])
            out.confirm = (40, 1)
            if not out.bad:
                if r.lines[0] != ['mscreate', '0']:
                    out.bad = 'the memory spool was not created: %r' % r.lines[0]
                    return out
                bad, opened, nf, stored = map(int, r.get('msthreads')[0])
                out.nontrivial = opened > 0
                if bad:
                    out.bad = '%d of %d concurrent reads did not return the product that was opened' % (bad, opened)
                if stored != case['nk']:
                    out.bad = '%d of %d products were stored' % (stored, case['nk'])
            return out
        m = Model(case['ndb'], (1 << 20) // 128 * case['per'])
        want = [['mscreate', '0']]
        ev = rd = False
        live, hn = {}, 0
        for op in case['ops']:
            if op[0] == 'ins':
                before = sum(len(x) for x in m.db)
                ok = m.put(op[1], (op[2], op[3]))
                ev = ev or sum(len(x) for x in m.db) <= before - 1
                prog.append('msins %s %d %d' % op[1:])
                want.append(['msins', '0' if ok else '1'])
            elif op[0] == 'open':
                if len(live) == case['slots']:
                    continue
                v = m.get(op[1])
                hn = min(set(range(9)) - set(live))
                prog.append('msopen %d %s' % (hn, op[1]))
                if v is None:
                    want.append(['msopen', '-2', '0'])
                else:
                    live[hn] = [v[0], v[1], 0]
                    want.append(['msopen', '0', str(v[1])])
            elif op[0] == 'read':
                if not live:
                    continue
                s = sorted(live)[op[1] % len(live)]
                tag, n, pos = live[s]
                c = min(op[2], n - pos)
                prog.append('msread %d %d %d %d' % (s, op[2], tag, pos))
                want.append(['msread', str(c), '1'])
                live[s][2] += c
                rd = rd or (ev and c > 0)
            elif op[0] == 'close':
                if not live:
                    continue
                s = sorted(live)[op[1] % len(live)]
                del live[s]
                prog.append('msclose %d' % s)
                want.append(['msclose', '0'])
            elif op[0] == 'trunc':
                m.clear()
                prog.append('mstrunc')
                want.append(['mstrunc', '0'])
            else:
                m.drop_oldest()
                prog.append('mstruncold')
                want.append(['mstruncold', '0'])
        for s in list(live):
            prog.append('msclose %d' % s)
            want.append(['msclose', '0'])
        prog.append('msdestroy')
        want.append(['msdestroy', '0'])
        r = ctx.drive('d_spool', prog, d)
        out = Outcome(nontrivial=rd, tags=['sequential', 'evicted' if ev else 'nothing evicted'])
        out.bad = r.crash()
        if not out.bad:
            for i, w in enumerate(want):
                g = r.lines[i] if i < len(r.lines) else []
                if len(g) != len(w) or any(a is not None and a != b for a, b in zip(w, g)):
                    out.bad = 'after %r: expected %r, got %r' % (prog[max(0, i - 3):i + 1], w, g)
                    break
        return out
