"""The built-in server: who is served, and which products the netfilter lets through to whom."""
import os
import net, pipe, sbn, srv
import c16
from gens import IDS, STAS
from pbt import Outcome, hx

GEN = 3950050000
MSG = dict(NBS1=b'NBS1', NBS2=b'NBS2', EMWIN=b'EMWIN')
ODD = [b'NBS', b'NBS1\n', b'nbs1', b'NBS11', b'NBS3', b'EMWIN ', b'EMWI', b'\0', b'NBS1\0', b'ByteBlast Client|NM-a@b|V1',
       b'NBS2NBS2', b' NBS2', b'GET / HTTP/1.0\r\n\r\n', b'x' * 600]
PROTO = dict(NBS1=1, NBS2=2, EMWIN=4, odd=4, silent=4)
VALUES = ['1', '0', '2', '-1', 'yes', '0x0', '0x1', '""', 'no', '00']


def value(v):
    return {'1': 1, '0': 0, '2': 2, '-1': -1, '0x0': 0, '0x1': 1, '00': 0}.get(v)


class Check:
    pid = 'C17'
    title = 'The server serves only known protocols it was told to serve, within its limits and the netfilter rules'
    parts = ['core']
    drivers = ['d_srv']
    quick, thorough = 700, 20000
    rule = ('a case counts as non-trivial when at least two clients were served and one was refused, taken over, left '
            'unidentified or denied a product by the netfilter')
    assumptions = ['product sequence numbers are not zero', 'no product is empty',
                   'the netfilter script sets its variables anew for every product']

    def gen(self, src):
        nc = src.int(2, 6)
        ips = ['127.1.1.%d' % (10 ** src.draw(3) + src.draw(3)) for _ in range(src.int(1, 5))]
        names = {ip: src.pick(['alpha.example.net', 'b.example.net', ip + '.example.net', 'x', '0'])
                 for ip in ips if src.bool(0.4)}
        clients = [dict(ip=src.pick(ips) if src.bool(0.4) else '127.1.2.%d' % (k + 1),
                        kind=src.wpick((3, 'NBS1'), (3, 'NBS2'), (2, 'EMWIN'), (2, 'odd'), (2, 'silent')),
                        odd=src.draw(len(ODD))) for k in range(nc)]
        short = src.bool(0.4)
        nf = src.bool(0.7)
        ops, seq = [], 0
        allips = sorted({c['ip'] for c in clients})
        for k in range(min(2, nc)):
            ops.append(['open', k])
        for _ in range(src.int(3, 18)):
            w = src.draw(16)
            if w < 8:
                seq += src.int(1, 3)
                rules = []
                if nf:
                    if src.bool(0.06):
                        rules = ['error']
                    else:
                        for _ in range(src.draw(5)):
                            ix = src.wpick((3, '0'), (4, src.pick(allips)), (3, src.pick(sorted(names.values()) or ['0'])))
                            cond = src.wpick((4, None), (3, ['ip', src.pick(allips)]),
                                             (1, ['name', src.pick(sorted(names.values()) + [''])]),
                                             (1, ['field', src.draw(6), src.draw(2)]))
                            rules.append([cond, ix, src.pick(VALUES) if src.bool(0.3) else src.pick(['0', '1'])])
                ops.append(['product', seq, src.draw(len(IDS)), src.draw(len(STAS)), src.draw(320000),
                            src.wpick((6, 300), (2, 5000), (1, 70000)), src.draw(1 << 30), rules])
            elif w < 12:
                ops.append(['open', src.draw(nc)])
            elif w < 14:
                ops.append(['bye', src.draw(nc), src.draw(2)])
            elif w < 15:
                ops.append(['say', src.draw(nc), src.draw(4), src.draw(len(ODD))])
            elif nf:
                ops.append(['reload'])
        return dict(clients=clients, names=names, short=short, nf=nf, ops=ops, types=src.int(1, 7),
                    max=src.wpick((2, -1), (1, 1), (1, 2), (1, 3)), dflt=src.pick(['1', '0', None, None]))

    # ---------------------------------------------------------------- the netfilter
    def script(self, case, gen, inits):
        b = []
        fields = {}
        for op in case['ops']:
            if op[0] == 'product':
                b.append('%d {' % op[1])
                if op[7] == ['error']:
                    b.append('error "this product fails"')
                else:
                    for cond, ix, v in op[7]:
                        if v != '""' and gen % 2:
                            v = {'0': '1', '1': '0'}.get(v, v)
                        s = 'set allow(%s) %s' % (ix, v)
                        if cond:
                            if cond[0] == 'ip':
                                s = 'if {$serverinfo(clientip) eq "%s"} {%s}' % (cond[1], s)
                            elif cond[0] == 'name':
                                s = 'if {$serverinfo(clientname) eq "%s"} {%s}' % (cond[1], s)
                            else:
                                s = 'if {[string match "%s" [lindex $input %d]]} {%s}' % (self.field(op, cond), cond[1], s)
                        b.append(s)
                b.append('}')
        d = case['dflt']
        return ('if {$command == 0} {close [open "%s" w]}\n'
                'if {$command == 1} {\narray unset allow\n%s\n'
                'switch -- [lindex $input 0] {\n%s\ndefault {%s}\n}\n}\nset output_status 0\n') % (
                    inits, 'set allow(0) %s' % d if d else '',
                    '\n'.join(b), '\n'.join('set allow(%s) 1' % ix for ix in
                                            ['0'] + [c['ip'] for c in case['clients']] + sorted(case['names'].values())))

    @staticmethod
    def field(op, cond):
        """The pattern a condition compares a field of the product with: of the right value or of another."""
        name = (STAS[op[3]] + b'_' + IDS[op[2]]).decode().lower() + '*'
        right = [str(op[1]), '1', '2', '3', '0', name][cond[1]]
        return right if cond[2] else 'x' + right

    def allowed(self, case, op, gen, ip):
        if op[7] == ['error']:
            return False
        name = case['names'].get(ip)
        allow = {}
        if case['dflt']:
            allow['0'] = case['dflt']
        for cond, ix, v in op[7]:
            if v != '""' and gen % 2:
                v = {'0': '1', '1': '0'}.get(v, v)
            if cond:
                if cond[0] == 'ip' and cond[1] != ip:
                    continue
                if cond[0] == 'name' and cond[1] != (name or ''):
                    continue
                if cond[0] == 'field' and not cond[2]:
                    continue
            allow[ix] = v
        for ix in ([name] if name is not None else []) + [ip, '0']:
            if ix in allow and value(allow[ix]) is not None:
                return value(allow[ix]) != 0
        return False

    # ---------------------------------------------------------------- the run
    def run(self, case, ctx):
        cl = case['clients']
        dir = ctx.dir()
        st = dict(servertype=case['types'], server_maxclients=case['max'], emwinfilter_always=0,
                  server_clientid_timeout_secs=4 if case['short'] else 100000, memfile_minsize=1 << 20,
                  client_reconnect_wait_sleep_secs=1, client_reconnect_wait_sleep_retry=0)
        if case['types'] & 4:
            open(dir + '/rules', 'w').write('0 0 0 0 0 0 @ p\n')
            st['emwinfilter'] = '%s --emwin %s' % (ctx.drv['d_srv'].exe, dir + '/rules')
            st['emwinfilter_fifo'] = dir + '/fifo'
        gens = 1
        if case['nf']:
            st.update(netfilter_enable=1, netfilter=dir + '/netfilter')
            gens += sum(op[0] == 'reload' for op in case['ops'])
            for g in range(gens):
                open(dir + '/netfilter' + ('.%d' % g if g else ''), 'w').write(
                    self.script(case, g, dir + '/init%d' % g))
        r = srv.Server(ctx, st, dir, [('name', ip, hx(n.encode())) for ip, n in sorted(case['names'].items())])
        # the server as it should be
        conn = {}           # client -> what its open connection is: a protocol or 'idle'
        fate = {k: [] for k in range(len(cl))}          # per connection: [how it goes, protocol]
        g = 0
        prods = {}
        self.events = set()

        def served(k, proto):
            if case['types'] & proto:
                r.ready([k])
                conn[k] = proto
                fate[k][-1][:] = ['served', proto]
                return
            r.op('closed', k, 9000)
            r.op('socks', 3000)
            del conn[k]
            fate[k][-1][:] = ['refused', 0]
            self.events.add('not served')

        for op in case['ops']:
            k = op[1] if len(op) > 1 else None
            if op[0] == 'open':
                if k in conn or len(fate[k]) >= 4:
                    continue
                ip = cl[k]['ip']
                old = [x for x in conn if cl[x]['ip'] == ip]
                full = not old and 0 <= case['max'] <= len(conn)
                kind = cl[k]['kind']
                msg = MSG.get(kind, ODD[cl[k]['odd']] if kind == 'odd' else b'')
                if full:
                    # what a refused client says first may make the close a reset
                    msg = b''
                r.client(k, ip, msg, 0, 0)
                fate[k].append(['', 0])
                if old:
                    r.op('closed', old[0], 9000)
                    r.op('socks', 3000)
                    fate[old[0]][-1].append('taken over')
                    del conn[old[0]]
                    self.events.add('taken over')
                if full:
                    r.op('closed', k, 9000)
                    r.op('socks', 3000)
                    fate[k][-1][:] = ['refused', 0]
                    self.events.add('full')
                    continue
                conn[k] = 'idle'
                if kind == 'silent' and not case['short']:
                    r.op('socks', 3000)
                    fate[k][-1][:] = ['idle', 0]
                    self.events.add('unidentified')
                else:
                    served(k, PROTO[kind])
                    if kind == 'silent':
                        self.events.add('default')
            elif op[0] == 'bye':
                if k in conn:
                    r.op('bye', k, op[2])
                    r.op('socks', 3000)
                    del conn[k]
            elif op[0] == 'say':
                if k in conn:
                    kind = ['NBS1', 'NBS2', 'EMWIN', 'odd'][op[2]]
                    r.op('say', k, hx(MSG.get(kind, ODD[op[3]])))
                    if conn[k] == 'idle':
                        served(k, PROTO[kind])
            elif op[0] == 'reload':
                nbs = [x for x in sorted(conn) if conn[x] in (1, 2)]
                if not nbs:
                    continue
                g += 1
                r.product([srv.probe_frame(GEN + g)], srv.PROBE_CH)
                r.op('until', nbs[0], hx(b'kzzz_zzzz98.010101_%d' % (GEN + g)), 9000)
                r.op('mv', hx((dir + '/netfilter.%d' % g).encode()), hx((dir + '/netfilter').encode()))
                r.op('reload')
                r.op('exists', hx((dir + '/init%d' % g).encode()), 9000)
            else:
                _, seq, i, s, t, n, salt, rules = op
                hdr = IDS[i] + b' ' + STAS[s] + b' %06d\r\r\n' % t
                import random
                r.product(srv.simple(seq, hdr, random.Random(salt).randbytes(n)[:max(n - len(hdr), 1)]))
                prods[seq] = (op, g)
        n1 = r.marker()
        n2 = r.marker()
        for k in sorted(conn):
            if conn[k] in (1, 2):
                r.op('until', k, hx(n2), 15000)
            elif conn[k] == 4:
                r.op('until', k, hx(bytes(x ^ 255 for x in b'/PFP%d' % (pipe.SENT_SEQ + 1))), 15000)
        r.op('dump')
        for k in sorted(conn):
            r.op('bye', k, 0)
        r.op('srvstop', 15000)
        r.op('fds')
        o = r.run()
        out = Outcome()
        out.bad = o.bad
        if out.bad:
            return out
        out.bad = self.judge(case, r, o, fate, conn, prods)
        ns = sum(f[0] == 'served' for v in fate.values() for f in v)
        out.nontrivial = ns >= 2 and bool(self.events)
        out.tags = sorted(self.events) + ['netfilter' if case['nf'] else 'no netfilter', 'reloads %d' % min(g, 2),
                                          'servertype %d' % case['types']]
        return out

    def judge(self, case, r, o, fate, conn, prods):
        cl = case['clients']
        for k, v in fate.items():
            ss = o.streams.get(k, [])
            if len(ss) != len(v):
                return 'client %d has %d connections, expected %d' % (k, len(ss), len(v))
            for j, (f, (e, b)) in enumerate(zip(v, ss)):
                who = 'connection %d of client %d (%s, %s)' % (j, k, cl[k]['kind'], cl[k]['ip'])
                if f[0] != 'served' and b:
                    return '%s received %d bytes although it %s' % (
                        who, len(b), 'was not to be served' if f[0] == 'refused' else 'had not identified itself')
                if f[0] == 'refused' and e not in (1, 2):
                    return '%s was to be refused and is still open' % who
                if f[-1] == 'taken over' and e not in (1, 2):
                    return '%s is still open although its address connected again' % who
                if f[0] != 'refused' and f[-1] != 'taken over' and e in (1, 2):
                    return '%s was closed by the server' % who
        if o.unready:
            return 'a client that was to be served was not served any product'
        if ['0'] in o.res.get('exists'):
            return 'the netfilter was not initialized again when a reload was asked for'
        if ['0'] in o.res.get('socks'):
            return 'a connection that ended was not closed by the server'
        n1 = srv.nbs1_units(o)
        n2 = srv.nbs2_units(o, srv.nbs2_pathsize(r.spool))
        em = [c16.packets(b'p%d' % a[0], c) for a, c in o.hist]
        for k, v in fate.items():
            ip = cl[k]['ip']
            keep = [i for i, (a, c) in enumerate(o.hist)
                    if a[0] not in prods or not case['nf'] or self.allowed(case, prods[a[0]][0], prods[a[0]][1], ip)]
            if len(keep) < len(o.hist):
                self.events.add('denied')
            for j, (f, (e, b)) in enumerate(zip(v, o.streams.get(k, []))):
                if f[0] != 'served':
                    continue
                u = {1: n1, 2: n2, 4: em}[f[1]]
                u = [u[i] for i in keep]
                if f[1] == 4:
                    b, bad = c16.clear(b)
                    if bad:
                        return 'client %d: %s' % (k, bad)
                bad, first, pos, _ = srv.follow(u, [(e, b)], [0])
                if bad:
                    return 'client %d (%s, %s), connection %d: %s' % (k, cl[k]['kind'], ip, j, bad)
                if k in conn and j == len(v) - 1 and (first is None or pos < len(u)):
                    return 'client %d (%s, %s) received products up to number %s of %d and then nothing more' % (
                        k, cl[k]['kind'], ip, pos, len(u))
        if o.res.get('srvstop') != [['1']]:
            return 'the server did not end when asked to'
        if o.res.get('fds')[-1][0] != '0':
            return 'files of the spool are still open after all the clients have gone'
        return None
