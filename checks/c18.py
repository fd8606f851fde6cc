"""The accept lists: which products are processed, queued, kept compressed, monitored and distributed."""
import re, zlib
import c16, net, pipe, sbn, srv
from gens import IDS, STAS
from pbt import Outcome, hx

ROLES = ['patt', 'filterq', 'serverq', 'nbs1', 'nbs2', 'emwin']
SET = dict(patt='patt_accept', filterq='filterq_patt_accept', serverq='serverq_patt_accept', nbs1='nbs1_patt_accept',
           nbs2='nbs2_patt_accept', emwin='emwin_patt_accept')
BAD = ['(', '[a', 'a(b', 'x,(', '!(,a', 'a,[[:nothing:]]', 'a{2', '[z-a]']
SECOND = [b'', b'N0RDDC\r\r\n', b'GRIB', b'AFDSJU\r\r\n', b'BUFR', b'METAR \r\r\n']


class Check:
    pid = 'C18'
    title = 'The accept lists decide by their right-most matching pattern what is processed, queued and distributed'
    parts = ['core']
    drivers = ['d_srv', 'd_core']
    quick, thorough = 900, 25000
    rule = ('a case counts as non-trivial when some list has at least two patterns and at least one product was accepted '
            'and one refused by the same list')
    assumptions = ['product sequence numbers are not zero']

    # an extended regular expression and the same for the reference
    def atom(self, src, names, d):
        n = src.pick(names)
        i = src.draw(len(n))
        w = src.draw(14)
        if w < 5:
            lit = n[i:i + src.int(1, 4)]
            return ''.join('\\' + c if c in '+.' and src.draw(2) else '[%s]' % c if c in '+.' else c for c in lit)
        if w < 6:
            return '.'
        if w < 8:
            return '[%s%s]' % ('^' if src.bool(0.3) else '', ''.join(sorted({src.pick(n), src.pick(n)})).replace('-', '') or 'a')
        if w < 9:
            return src.pick(['[a-m]', '[n-z]', '[0-9]', '[^0-9]', '[a-z0-9]', '[_-]', '[[:digit:]]', '[[:alpha:]]', '[^[:alnum:]]'])
        if w < 12 and d < 2:
            return '(%s)' % '|'.join(self.seq(src, names, d + 1) for _ in range(src.int(1, 3)))
        return n[i]if n[i] not in '+.' else '\\' + n[i]

    def seq(self, src, names, d=0):
        r = ''
        for _ in range(src.int(1, 3)):
            a = self.atom(src, names, d)
            if src.bool(0.2):
                if len(a) > 1 and a[0] not in '[(' and not (a[0] == '\\' and len(a) == 2):
                    a = '(%s)' % a
                a += src.pick(['*', '+', '?', '{1}', '{2}'])
            r += a
        return r

    def patt(self, src, names):
        w = src.draw(20)
        if w < 2:
            return None
        if w < 3:
            return ''
        its = []
        for _ in range(src.int(1, 5)):
            v = src.draw(10)
            if v < 3:
                n = src.pick(names)
                i = src.draw(len(n))
                p = re.sub(r'([+.])', r'[\1]', n[i:i + src.int(1, 6)])
            elif v < 4:
                p = '.*'
            elif v < 5:
                p = ''
            else:
                p = self.seq(src, names)
            if src.bool(0.25):
                p = '^' + p
            if src.bool(0.2):
                p += '$'
            if src.bool(0.4):
                p = '!' + p
            its.append(p)
        return ','.join(its)

    def gen(self, src):
        prods, seq = [], 0
        for _ in range(src.int(2, 8)):
            seq += src.int(1, 3)
            prods.append([seq, src.draw(len(IDS)), src.draw(len(STAS)), src.draw(len(SECOND)), src.draw(320000)])
        names = [self.name(p) for p in prods]
        net_ = src.bool(0.6)
        bad = src.bool(0.04)
        patts = {}
        for ro in ROLES:
            patts[ro] = self.patt(src, names) if src.bool(0.6) else None
        case = dict(prods=prods, net=net_, patts=patts)
        if bad:
            case['bad'] = [src.pick(ROLES), src.pick(BAD)]
        return case

    @staticmethod
    def header(p):
        return IDS[p[1]] + b' ' + STAS[p[2]] + b' %06d\r\r\n' % p[4] + SECOND[p[3]]

    def name(self, p):
        m = sbn.Model(spool='/s')
        for f in srv.simple(p[0], self.header(p), b'data of %d' % p[0]):
            m.feed(0, f)
        return m.sann[-1][5]

    @staticmethod
    def accepts(patt, name):
        if patt is None:
            return True
        r = False
        for p in patt.split(','):
            if not p:
                continue
            neg = p[0] == '!'
            q = p[1:] if neg else p
            q = q.replace('[[:digit:]]', '[0-9]').replace('[[:alpha:]]', '[A-Za-z]').replace('[^[:alnum:]]', '[^A-Za-z0-9]')
            if re.search(q, name):
                r = not neg
        return r

    @staticmethod
    def open(patt):
        """The list that also accepts the products of the harness."""
        return None if patt is None else patt + (',' if patt else '') + '^kzzz_zzzz9[89]$'

    def run(self, case, ctx):
        out = Outcome()
        out.tags = []
        st = {SET[ro]: self.open(v) for ro, v in case['patts'].items()}
        if 'bad' in case:
            ro, p = case['bad']
            st[SET[ro]] = p
            r = pipe.Run(ctx, st)
            res = ctx.drive('d_core', r.prog, r.dir)
            out.bad = res.crash()
            if not out.bad and (res.get('start') == [['0']] or not res.get('start')):
                out.bad = 'the invalid list %r was taken' % p
            out.tags = ['invalid list']
            return out
        # lists that can be empty only when nothing of the harness depends on them
        if case['net']:
            return self.run_net(case, ctx, st, out)
        r = pipe.Run(ctx, st)
        for p in case['prods']:
            for f in srv.simple(p[0], self.header(p), b'data of %d' % p[0]):
                r.frame(0, f)
        r.drain()
        o = r.run()
        out.bad = o.bad
        if out.bad:
            return out
        P = case['patts']
        A = {p[0]: {ro: self.accepts(P[ro], self.name(p)) for ro in ROLES} for p in case['prods']}
        got = {'filterq': [a[0] for a in o.ann], 'serverq': [a[0] for a in o.sann]}
        for ro in ('filterq', 'serverq'):
            want = [q for q in A if A[q]['patt'] and A[q][ro]]
            if got[ro] != want:
                out.bad = 'the %s queue received the products %r, its list accepts %r (%r)' % (
                    ro, got[ro], want, {self.name(p): p[0] for p in case['prods']})
        stored = sorted(int(f.rsplit('_', 1)[1]) for f in o.files())
        want = sorted(q for q in A if A[q]['patt'])
        if not out.bad and stored != want:
            out.bad = 'the products %r were stored, the list accepts %r' % (stored, want)
        self.count(case, A, ('patt', 'filterq', 'serverq'), out)
        return out

    def count(self, case, A, roles, out):
        for ro in roles:
            v = [a[ro] for a in A.values()]
            p = case['patts'][ro]
            if p and ',' in p and any(v) and not all(v):
                out.nontrivial = True
                out.tags.append('%s decides' % ro)
        out.tags.append('server' if case['net'] else 'queues')

    def run_net(self, case, ctx, st, out):
        dir = ctx.dir()
        P = case['patts']
        st = dict(st, servertype=7, emwinfilter='%s --emwin %s' % (ctx.drv['d_srv'].exe, dir + '/rules'),
                  emwinfilter_fifo=dir + '/fifo', emwinfilter_always=0, memfile_minsize=1 << 20)
        st['filterq_patt_accept'] = None
        open(dir + '/rules', 'w').write('0 0 0 0 0 0 @ p\n')
        r = srv.Server(ctx, st, dir)
        kinds = ['nbs1', 'nbs2', 'emwin']
        for k, n in enumerate(('NBS1', 'NBS2', 'EMWIN')):
            r.client(k, '127.1.1.%d' % (k + 1), n.encode())
        r.ready([0, 1, 2])
        for p in case['prods']:
            r.product(srv.simple(p[0], self.header(p), b'data of %d' % p[0]))
        n1 = r.marker()
        n2 = r.marker()
        for k in range(3):
            r.op('until', k, hx(n2) if k < 2 else hx(bytes(x ^ 255 for x in b'/PFP%d' % (pipe.SENT_SEQ + 1))), 15000)
        r.op('dump')
        r.op('srvstop', 15000)
        o = r.run()
        out.bad = o.bad
        if out.bad:
            return out
        if o.unready:
            out.bad = 'a client was not served any product'
            return out
        names = {p[0]: self.name(p) for p in case['prods']}
        A = {q: {ro: self.accepts(P[ro], n) for ro in ROLES} for q, n in names.items()}
        for k, ro in enumerate(kinds):
            u = [srv.nbs1_units(o), srv.nbs2_units(o, srv.nbs2_pathsize(r.spool)),
                 [c16.packets(b'p%d' % a[0], c) for a, c in o.hist]][k]
            u = [x for x, (a, c) in zip(u, o.hist) if a[0] not in A or (
                A[a[0]]['patt'] and A[a[0]]['serverq'] and A[a[0]][ro])]
            (e, b), = o.streams[k]
            if ro == 'emwin':
                b, bad = c16.clear(b)
                if bad:
                    out.bad = bad
                    return out
            bad, first, pos, _ = srv.follow(u, [(e, b)], [0])
            if not bad and (first is None or pos < len(u)):
                bad = 'product %s of %d and the ones after it were not received' % (pos, len(u))
            if bad:
                out.bad = '%s client: %s; lists %r, names %r' % (ro, bad, {x: P[x] for x in ('patt', 'serverq', ro)}, names)
                return out
        self.count(case, A, ('patt', 'serverq', 'nbs1', 'nbs2', 'emwin'), out)
        return out
