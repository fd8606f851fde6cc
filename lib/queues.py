"""Generated histories for queues of records with soft and hard limits (announcement and connection queues)."""
from pbt import Outcome, hx


def gen(src, conn):
    store = 'mem' if conn else src.wpick((4, 'mem'), (3, 'env'), (3, 'file'))
    c = {'store': store, 'conn': conn, 'reclen': src.pick([100, 8, 64, 1000, 180]), 'num': 1 if conn else src.int(1, 4)}
    k = src.wpick((80, 'seq'), (3, 'threads'), (3, 'cycle'), (3, 'wake'))
    if k == 'threads':
        nc = 1 if conn else src.int(1, 3)
        c.update(kind=k, np=src.int(1, 4), nc=nc, per=src.int(3, 120), tmo=src.pick([1000, 37, 500] + ([-1] if nc == 1 else [])),
                 mask=src.pick([0, 8, 64]), hard=src.pick([0, 1, 2, 9]), soft=src.pick([0, 1, 4]))
        return c
    if k == 'cycle':
        c.update(kind=k, cycles=src.int(1, 200), per=src.int(1, 60), hard=0, soft=0)
        return c
    if k == 'wake':
        c.update(kind=k, delay=src.pick([5, 1, 40]), tmo=src.pick([20000, -1, 15321]), hard=0, soft=0)
        return c
    nq = src.pick([1, 1, 2, 3]) if conn else 1
    c.update(kind='seq', nq=nq, soft=src.pick([0, 0, 1, 2, 5]), hard=src.pick([0, 0, 1, 2, 3, 6]))
    ops, tag = [], 0
    rw = src.pick([6, 3, 1])
    for _ in range(src.int(3, 70)):
        op = src.wpick((6, 'snd'), (rw, 'rcv'), (1, 'flags'), (1 if store == 'file' else 0, 'reopen'))
        q, t = src.draw(nq), src.draw(c['num'])
        if op == 'snd':
            tag += 1
            n = src.pick([c['reclen'], 8, 8 + src.draw(c['reclen'] - 7)])
            ops.append(('snd', q, t, tag, max(8, n)))
        elif op == 'rcv':
            ops.append(('rcv', q, t, src.wpick((30, 0), (2, 1), (1, 17), (1, 60)), src.draw(2)))
        elif op == 'flags':
            ops.append(('flags', q, t))
        else:
            ops.append(('reopen', src.bool(), src.pick([c['hard'], 1, 3]), src.pick([c['soft'], 1, 2])))
    c['ops'] = ops
    return c


def run(case, ctx):
    d = ctx.dir()
    cn = int(case['conn'])
    envl = 'env %s 16' % (hx(d.encode()) if case['store'] != 'mem' else '-')
    name = hx(b'q') if case['store'] == 'file' else '-'
    lim = {'soft': case['soft'], 'hard': case['hard']}

    def qopen(i):
        if cn:
            return 'cqopen %d %d %d %d 1' % (i, lim['soft'], lim['hard'], case['reclen'])
        return 'qopen %d %d %d %d %d 1 %s' % (i, case['num'], lim['soft'], lim['hard'], case['reclen'], name)

    qclose = 'cqclose %d' if cn else 'qclose %d'
    prog = [envl]
    if case['kind'] != 'seq':
        prog.append(qopen(0))
        t = case['num'] - 1
        if case['kind'] == 'threads':
            prog += ['qthreads %d 0 %d %d %d %d %d %d %d' % (cn, case['num'], case['np'], case['nc'], case['per'], case['reclen'],
                                                           case['tmo'], case['mask'])]
            prog += ['qrcv %d 0 %d 0 0' % (cn, i) for i in range(case['num'])]
        elif case['kind'] == 'cycle':
            prog.append('qcycle %d 0 %d %d %d %d' % (cn, t, case['cycles'], case['per'], case['reclen']))
        else:
            prog.append('qwake %d 0 %d %d %d' % (cn, t, case['delay'], case['tmo']))
        prog += [qclose % 0, 'envclose']
        r = ctx.drive('d_queue', prog, d, timeout=20)
        out = Outcome(bad=r.crash(), tags=[case['kind']], nontrivial=True)
        if case['kind'] == 'threads':
            out.confirm = (20, 1)
        if out.bad:
            return out
        if case['kind'] == 'threads':
            tot, ooo, bad, dup, errs, ms = map(int, r.get('qthreads')[0])
            want = case['num'] * case['np'] * case['per']
            if (tot, ooo, bad, dup, errs) != (want, 0, 0, 0, 0):
                out.bad = ('%d records sent by %d concurrent senders: %d received, %d out of order, %d altered, %d twice, %d errors'
                           % (want, case['np'], tot, ooo, bad, dup, errs))
            elif any(x[0] != '1' for x in r.get('qrcv')):
                out.bad = 'something is left in a queue after all records were taken'
        elif case['kind'] == 'cycle':
            if r.get('qcycle')[0] != ['-1', '0']:
                out.bad = ('a queue that is emptied again and again fails in round %s (step %s)' % tuple(r.get('qcycle')[0]))
        else:
            st, ok, ms = r.get('qwake')[0]
            if (st, ok) != ('0', '1') or int(ms) > 8000:
                out.bad = 'a record sent %d ms after the reader began to wait: status %s, right record %s, after %s ms' % (
                    case['delay'], st, ok, ms)
        return out
    want = []
    nq = case['nq']
    qs = {(i, t): [] for i in range(nq) for t in range(case['num'])}
    fl = {k: [0, 0, 0] for k in qs}

    def add(p, w):
        prog.append(p)
        want.append((len(prog) - 1, w))

    for i in range(nq):
        add(qopen(i), ['qopen', '1'])
    tags, maxq, nt = {case['store']}, 0, False
    waits = []
    for op in case['ops']:
        if op[0] == 'snd':
            _, i, t, tag, n = op
            k = (i, t)
            f = fl[k]
            if lim['hard'] and len(qs[k]) >= lim['hard']:
                st = 2
                f[1] = 1
                tags.add('hard limit')
            else:
                qs[k].append((tag, n))
                st = int(bool(lim['soft'] and len(qs[k]) >= lim['soft']))
                f[0], f[1], f[2] = st, 0, 0
                if st:
                    tags.add('soft limit')
            maxq = max(maxq, len(qs[k]))
            add('qsnd %d %d %d %d %d' % (cn, i, t, tag, n), ['qsnd', str(st), str(len(qs[k]))])
        elif op[0] == 'rcv':
            _, i, t, tmo, reuse = op
            k = (i, t)
            if qs[k]:
                tag, n = qs[k].pop(0)
                nt = nt or maxq >= 2
                add('qrcv %d %d %d %d %d' % (cn, i, t, tmo, reuse), ['qrcv', '0', str(tag), str(n), '1', str(len(qs[k])), None])
            else:
                waits.append((len(want), tmo))
                add('qrcv %d %d %d %d %d' % (cn, i, t, tmo, reuse), ['qrcv', '1', '0', '0', '0', '0', None])
        elif op[0] == 'flags':
            k = (op[1], op[2])
            add('qflags %d %d %d' % (cn, op[1], op[2]), ['qflags'] + [str(x) for x in fl[k]])
        else:
            add(qclose % 0, ['qclose', '0'])
            if op[1]:
                prog += ['envclose', envl]
            lim['hard'], lim['soft'] = op[2], op[3]
            add(qopen(0), ['qopen', '1'])
            fl = {k: [0, 0, 0] for k in qs}
            if any(qs.values()):
                tags.add('reopened with records waiting')
    for k in sorted(qs):
        for tag, n in qs[k]:
            add('qrcv %d %d %d 0 0' % (cn, k[0], k[1]),
                ['qrcv', '0', str(tag), str(n), '1', None, None])
        waits.append((len(want), 0))
        add('qrcv %d %d %d 0 0' % (cn, k[0], k[1]), ['qrcv', '1', '0', '0', '0', '0', None])
    for i in range(nq):
        add(qclose % i, ['qclose', '0'])
    prog.append('envclose')
    r = ctx.drive('d_queue', prog, d)
    out = Outcome(nontrivial=nt, tags=sorted(tags))
    out.bad = r.crash()
    if not out.bad:
        for j, (pi, w) in enumerate(want):
            g = r.lines[j] if j < len(r.lines) else []
            if len(g) != len(w) or any(a is not None and a != b for a, b in zip(w, g)):
                out.bad = 'after %r: expected %r, got %r' % (prog[max(0, pi - 4):pi + 1], w, g)
                return out
        for j, tmo in waits:
            if int(r.lines[j][6]) < tmo - 5:
                out.bad = 'an empty queue was reported after %s ms although the time limit is %d ms' % (r.lines[j][6], tmo)
    return out
