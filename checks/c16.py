"""The built-in server: what EMWIN clients receive, and the dialogue with the filter that chooses it."""
import os, re, time
import net, pipe, sbn, srv
from gens import IDS, STAS
from pbt import Outcome, hx

PKT, DATA = 1116, 1024
SETTLE = 3950050000
T0 = 1600000000
DATE = re.compile(rb'\d\d/\d\d/\d{4} \d\d:\d\d:\d\d [AP]M')


def packets(name, content):
    """The packets of a file, in clear, with the date left blank."""
    n = (len(content) + DATA - 1) // DATA
    r = []
    for i in range(n):
        d = content[i * DATA:(i + 1) * DATA]
        h = b'/PF%-12s/PN %-5d/PT %-5d/CS %-6d/FD' % (name.upper()[:12], i + 1, n, sum(d))
        h += b'?' * 22 + b' ' * 10 + b'\r\n'
        r.append(b'\0' * 6 + h + d.ljust(DATA, b'\0') + b'\0' * 6)
    return r


def clear(stream):
    """The stream decoded, the dates checked and blanked: (bytes, problem)."""
    b = bytearray(x ^ 255 for x in stream)
    bad = None
    o = 6 + 46
    for i in range(0, len(b), PKT):
        d = bytes(b[i + o:i + o + 22])
        if len(d) == 22:
            ok = DATE.fullmatch(d)
            try:
                t = time.mktime(time.strptime(d.decode('latin1'), '%m/%d/%Y %I:%M:%S %p')) - time.timezone
                ok = ok and T0 <= t <= T0 + 40000
            except ValueError:
                ok = False
            if not ok:
                bad = bad or 'packet %d: the date is %r' % (i // PKT, d)
        b[i + o:i + o + 22] = b'?' * len(d)
    return bytes(b), bad


class Check:
    pid = 'C16'
    title = 'EMWIN clients get the files their filter chooses, once, in order, as well-formed EMWIN packets'
    parts = ['core']
    drivers = ['d_srv']
    quick, thorough = 500, 12000
    rule = ('a case counts as non-trivial when an EMWIN client was served a file of several packets and the filter '
            'withheld, failed on or was reloaded before another product')
    assumptions = ['product sequence numbers are not zero', 'the filter writes no more than it declares']

    def gen(self, src):
        nc = src.wpick((3, 1), (3, 2), (2, 3))
        kinds = [src.wpick((5, 'EMWIN'), (3, 'hello'), (2, 'silent'), (1, 'NBS1'), (1, 'NBS2')) for _ in range(nc)]
        faults = src.bool(0.25)
        always = src.bool(0.5)
        slow = faults and src.bool(0.3)
        ops, here, seq = [], set(), 0
        state = set()
        for k in range(nc):
            if k == 0 or src.bool(0.7):
                ops.append(['open', k])
                here.add(k)
        ops.append(['ready'] + sorted(here))
        nslow = 0
        for _ in range(src.int(1, 14)):
            w = src.draw(22)
            if w < 15 or not here:
                seq += src.int(1, 3)
                f = 'ok'
                if src.bool(0.25):
                    f = src.pick(['no', 'no', 'no255', 'own'])
                if faults and src.bool(0.3):
                    f = src.pick(['longpath', 'longname'])
                    if slow and nslow < 2:
                        f = src.pick(['die', 'cut', 'late', 'latefull'])
                        nslow += 1
                ops.append(['product', seq, src.draw(len(IDS)), src.draw(len(STAS)), src.draw(320000), src.int(1, 600),
                            f, src.wpick((4, 1), (4, 2), (2, 3), (2, 4), (1, 5), (1, 6), (1, 7), (1, 0)),
                            src.draw(1 << 30), src.draw(4), [src.pick([1, 2, 5, 8, 11, 12]), src.draw(1 << 20)]])
                if src.bool(0.05):
                    ops[-1][10][0] = 0
                continue
            k = src.pick(sorted(here))
            if w < 16:
                ops.append(['say', k, src.data(src.draw(40))])
            elif w < 17:
                ops.append(['pause', k])
                state.add(k)
            elif w < 18 and k in state:
                ops.append(['sleep', src.int(1, 10)])
                ops.append(['resume', k])
                state.discard(k)
            elif w < 19:
                ops.append(['bye', k, src.draw(2)])
                here.discard(k)
            elif w < 20:
                if always:
                    ops.append(['reload'])
            else:
                new = [k for k in range(nc) if k not in here]
                if new:
                    k = src.pick(new)
                    ops += [['open', k], ['ready', k]]
                    here.add(k)
                    state.discard(k)
        return dict(kinds=kinds, ops=ops, always=always, patt=src.wpick((4, 0), (1, 1), (1, 2)), faults=faults,
                    types=src.pick([0, 1, 2, 3]), small=[src.bool(0.2) for _ in range(nc)])

    SIZES = [0, 300, 1024, 1023, 1025, 2048, 9000, 60000]

    @staticmethod
    def content(size, salt, kind):
        import random
        r = random.Random(salt)
        n = size
        if kind == 0:
            return ((b'line %d\r\r\n' % salt) * (n // 9 + 1))[:n]
        if kind == 1:
            return b'\xff' * n
        return r.randbytes(n)

    @staticmethod
    def name(n, salt):
        import random
        r = random.Random(salt)
        return ''.join(r.choice('abcdefxyzABC0123456789._') for _ in range(n))

    def run(self, case, ctx):
        kinds = case['kinds']
        stype = 4
        for b, n in ((1, 'NBS1'), (2, 'NBS2')):
            if case['types'] & b or n in kinds:
                stype |= b
        patt = [None, '.*,!^k[b-n]', '!_f,^k,^p,^t'][case['patt']]
        st = dict(servertype=stype, emwinfilter_always=int(case['always']), emwinfilter_read_timeout_secs=1,
                  emwin_patt_accept=pipe.with_sentinel(patt) and pipe.with_sentinel(patt) + ',^kzzz_zzzz9',
                  server_clientid_timeout_secs=5 if 'silent' in kinds else 100000, memfile_minsize=1 << 20,
                  client_write_timeout_ms=9000)
        if patt is None:
            st['emwin_patt_accept'] = None
        dir = ctx.dir()
        rules = dir + '/rules'
        st['emwinfilter'] = '%s --emwin %s' % (ctx.drv['d_srv'].exe, rules)
        st['emwinfilter_fifo'] = dir + '/fifo'
        out = Outcome()
        # what the filter is to do
        gen_rules = [{}]
        files = {}          # generation, seq -> (name, content) that is sent
        pmodel = sbn.Model(spool=dir + '/spool')
        ngen = 0
        probe_c = b'this is a probe\r\r\n'
        plan = []           # (seq, passes pattern)
        ops2 = []
        for op in case['ops']:
            if op[0] == 'reload':
                ngen += 1
                gen_rules.append({})
                continue
            if op[0] != 'product':
                continue
            _, seq, i, s, t, n, fault, size, salt, kind, nm = op
            hdr = IDS[i] + b' ' + STAS[s] + b' %06d\r\r\n' % t
            fr = srv.simple(seq, hdr, self.content(n, salt, 2))
            for f in fr:
                pmodel.feed(0, f)
            a = pmodel.sann[-1]
            c = self.content(self.SIZES[size], salt, kind)
            path = dir + '/f%d' % seq
            if fault == 'own':
                path, c = a[6], pmodel.files[a[6]]
            else:
                open(path, 'wb').write(c)
            name = self.name(*nm)
            r = [0, 0, 0, 0, 0, path, name or '-']
            files[seq] = (name.encode(), c)
            if fault in ('no', 'no255'):
                r[0] = 1 if fault == 'no' else 255
            elif fault == 'longpath':
                r[1] = 4096
            elif fault == 'longname':
                r[6] = 'thirteenchars'
            elif fault == 'die':
                r[0] = -9
            elif fault == 'cut':
                r[3] = 1 + salt % (5 + len(path) + len(name))
            elif fault == 'late':
                r[3], r[4] = 0, 1400
                r[0] = salt & 1
            elif fault == 'latefull':
                r[4] = 1400
            if fault not in ('ok', 'own'):
                del files[seq]
            gen_rules[ngen][seq] = r
            plan.append((seq, fault))
        nmk = 2
        fm = []
        for j in range(nmk):
            p = dir + '/m%d' % j
            open(p, 'wb').write(b'end %d' % j)
            fm.append((b'mark%d' % j, b'end %d' % j))
            gen_rules[ngen][pipe.SENT_SEQ + j] = [0, 0, 0, 0, 0, p, 'mark%d' % j]
        for j, g in enumerate(gen_rules):
            with open(rules if j == 0 else rules + '.%d' % j, 'w') as f:
                for q, r in sorted(g.items()):
                    f.write('%d %d %d %d %d %d %s %s\n' % ((q,) + tuple(r)))
                f.write('0 0 0 0 0 0 @ %s\n' % chr(97 + j))
        # the program
        r = srv.Server(ctx, st, dir)
        gaps = {k: [] for k in range(len(kinds))}
        nconn = {k: 0 for k in gaps}
        here, paused = set(), set()
        ident = dict(EMWIN=b'EMWIN', hello=b'ByteBlast Client|NM-x@y.z|V2', silent=b'', NBS1=b'NBS1', NBS2=b'NBS2')
        g = 0
        for op in case['ops']:
            k = op[1] if len(op) > 1 else None
            if op[0] == 'open':
                if k in here:
                    continue
                r.client(k, '127.1.1.%d' % (k + 1), ident[kinds[k]], 0, 3000 if case['small'][k] else 0)
                gaps[k].append(nconn[k])
                nconn[k] += 1
                here.add(k)
                if k in paused:
                    r.op('resume', k)
                    paused.discard(k)
            elif op[0] == 'ready':
                ks = [x for x in op[1:] if x in here]
                for x in ks:
                    if x in paused:
                        r.op('resume', x)
                        paused.discard(x)
                if ks:
                    r.ready(ks)
            elif op[0] == 'product':
                _, seq, i, s, t, n, fault, size, salt, kind, nm = op
                hdr = IDS[i] + b' ' + STAS[s] + b' %06d\r\r\n' % t
                r.product(srv.simple(seq, hdr, self.content(n, salt, 2)))
            elif op[0] == 'reload':
                # the products before are through the filter when it has been asked about this one
                g += 1
                r.product([srv.probe_frame(SETTLE + g)], srv.PROBE_CH)
                r.op('flog', hx(b'L %d ' % (SETTLE + g)), 1, 9000)
                r.op('mv', hx((rules + '.%d' % g).encode()), hx(rules.encode()))
                r.op('reloadwait', 9000)
            elif op[0] == 'sleep':
                r.op('sleep', op[1])
            elif k not in here:
                continue
            elif op[0] == 'say':
                r.op('say', k, 'x' + bytes(op[2]).hex())
            elif op[0] == 'pause':
                r.op('pause', k)
                paused.add(k)
            elif op[0] == 'resume':
                r.op('resume', k)
                paused.discard(k)
            elif op[0] == 'bye':
                r.op('bye', k, op[2])
                here.discard(k)
        for k in sorted(paused):
            r.op('resume', k)
        n1 = r.marker()
        n2 = r.marker()
        for k in sorted(here):
            r.op('until', k, hx(bytes(x ^ 255 for x in b'/PFMARK1 ') if kinds[k][0] != 'N' else n2), 20000)
        if case['always']:
            r.op('flog', hx(b'L %d ' % (pipe.SENT_SEQ + 1)), 1, 20000)
        r.op('dump')
        for k in sorted(here):
            r.op('bye', k, 0)
        r.op('srvstop', 15000)
        r.op('fds')
        o = r.run()
        out.bad = o.bad
        if out.bad:
            return out
        out.bad = self.judge(case, st, r, o, gaps, here, files, fm, rules)
        faulty = [f for _, f in plan if f not in ('ok', 'own')]
        out.nontrivial = self.multi and (bool(faulty) or g > 0)
        out.tags = ['emwin clients %d' % sum(x[0] != 'N' for x in kinds), 'always' if case['always'] else 'on demand',
                    'reloads %d' % min(g, 2), 'pattern %d' % case['patt']] + sorted({'filter: ' + f for _, f in plan})
        return out

    multi = False

    def judge(self, case, st, r, o, gaps, here, files, fm, rules):
        self.multi = False
        if o.unready:
            return 'a client was not served any product'
        if any(x == ['0'] for x in o.res.get('reloaded')):
            return 'the filter was not started again when a reload was asked for'
        patt = sbn.Patt(st['emwin_patt_accept'])
        units, asked, g = [], [], 0
        for a, c in o.hist:
            seq = a[0]
            if not patt.accept(a[5]):
                continue
            asked.append('%d %d %d %d %d %s %s' % a)
            if SETTLE < seq < SETTLE + 1000:
                units.append(packets(b'%c%d' % (97 + g, seq), c))
                g = seq - SETTLE
            elif seq >= pipe.SENT_SEQ:
                units.append(packets(*fm[seq - pipe.SENT_SEQ]))
            elif seq >= srv.PROBE_SEQ:
                units.append(packets(b'%c%d' % (97 + g, seq), c))
            elif seq in files and files[seq][1]:
                units.append(packets(*files[seq]))
        log = open(rules + '.log').read().splitlines() if os.path.exists(rules + '.log') else []
        lines = [l[2:] for l in log if l.startswith('L ')]
        if case['always']:
            if lines != asked:
                i = next((i for i in range(min(len(lines), len(asked))) if lines[i] != asked[i]), min(len(lines), len(asked)))
                return 'the filter was asked about product %d: %r, expected %r' % (
                    i, lines[i] if i < len(lines) else None, asked[i] if i < len(asked) else None)
        else:
            i = 0
            for l in lines:
                while i < len(asked) and asked[i] != l:
                    i += 1
                if i == len(asked):
                    return 'the filter was asked about %r, which is not the next product of the history' % l
                i += 1
        kinds = case['kinds']
        u1 = srv.nbs1_units(o)
        u2 = srv.nbs2_units(o, srv.nbs2_pathsize(r.spool))
        for k, ss in sorted(o.streams.items()):
            if any(e in (1, 2) for e, _ in ss):
                return 'the server closed connection %d of client %d (%s)' % (
                    [e in (1, 2) for e, _ in ss].index(True), k, kinds[k])
            if kinds[k][0] == 'N':
                u = u1 if kinds[k] == 'NBS1' else u2
            else:
                u = units
                dec = []
                for e, b in ss:
                    b, bad = clear(b)
                    if bad:
                        return 'client %d (%s): %s' % (k, kinds[k], bad)
                    dec.append((e, b))
                ss = dec
            bad, first, pos, _ = srv.follow(u, ss, gaps[k])
            if bad:
                return 'client %d (%s): %s' % (k, kinds[k], bad)
            if k in here and (first is None or pos < len(u)):
                return 'client %d (%s) received its products up to number %s of %d and then nothing more' % (
                    k, kinds[k], pos, len(u))
            if kinds[k][0] != 'N' and any(len(x) > 1 for x in u[first or 0:pos or 0]):
                self.multi = True
        if o.res.get('srvstop') != [['1']]:
            return 'the server did not end when asked to'
        if o.res.get('fds')[-1][0] != '0':
            return 'files of the spool are still open after all the clients have gone'
        if os.path.exists(st['emwinfilter_fifo']):
            return 'the fifo of the filter is still there after the server ended'
        return None
