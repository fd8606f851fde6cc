"""The product control queue between the readers and the processor."""
from pbt import Outcome, hx

MB = 1 << 20
FRAME_INFO = None       # the queue's own bytes per frame are not part of the property


class Check:
    pid = 'C09'
    title = 'Every completed product reaches the processor once, in order and unaltered'
    parts = ['core']
    drivers = ['d_queue']
    quick, thorough = 2500, 60000
    rule = ('a case is a history of product starts, blocks, ends, aborts and takings over up to 9 channels, or a run of one '
            'producing thread per channel and the consumer; non-trivial when at least two products waited in the queue at '
            'once and one was taken after that (or the threads delivered all)')
    assumptions = ['the queue has the memory it needs: its cache or its files do not run out',
                   'the clock is not set back while products are waiting']

    def gen(self, src):
        store = src.wpick((4, 'mem'), (3, 'env'), (3, 'file'))
        c = {'store': store, 'minsize': src.pick([8192, 100, 65536])}
        if src.bool(0.04):
            c.update(kind='threads', nch=src.int(1, 9), per=src.int(2, 60), maxf=src.int(1, 6), tmo=src.pick([1000, 500, 37, -1]),
                     mask=src.pick([0, 8, 64]), hard=src.pick([0, 1, 2, 5, 30]))
            return c
        nch = src.int(1, 9)
        lims = dict(soft=src.pick([0, 0, 1, 2, 5]), hard=src.pick([0, 0, 1, 2, 3, 6]), mfsoft=src.pick([0, 0, 1, 2]),
                    mfhard=src.pick([0, 0, 1, 2]))
        c.update(kind='seq', nch=nch, **lims)
        ops, open_, tag = [], {}, 0
        sizes = src.pick([(8, 100), (8, 5000), (4000, 5200), (8, 9)])
        if lims['mfhard'] or lims['mfsoft']:
            sizes = (60000, 400000)
        rw = src.pick([7, 3, 1])
        for _ in range(src.int(3, 50)):
            k = src.wpick((6, 'product'), (4, 'begin'), (6, 'frame'), (5, 'end'), (1, 'abort'), (rw, 'rcv'), (2 if store == 'file' else 0, 'reopen'))
            ch = src.draw(nch)
            if k == 'product':
                # a whole product at once
                if ch in open_:
                    continue
                tag += 1
                nf = src.pick([1, 2, 3, 5])
                ops.append(('begin', ch, tag * 3 + 1, nf, tag))
                for b in range(nf):
                    ops.append(('frame', ch, tag * 3 + 1, b, tag * 100 + b, src.int(*sizes), src.draw(2)))
                ops.append(('end', ch, tag * 3 + 1))
            elif k == 'begin':
                tag += 1
                seq, nf = src.pick([tag, 4294967295 - tag, 1000 + tag]), src.int(1, 4)
                ops.append(('begin', ch, seq, nf, tag))
                if ch not in open_:
                    open_[ch] = [seq, nf, 0, tag]
            elif k == 'frame' and open_:
                ch = src.pick(sorted(open_))
                o = open_[ch]
                b = o[2] if src.bool(0.85) else src.draw(o[1] + 1)
                seq = o[0] if src.bool(0.93) else o[0] ^ 1
                ops.append(('frame', ch, seq, b, o[3] * 100 + b, src.int(*sizes), src.draw(2)))
                if seq == o[0] and b == o[2]:
                    o[2] += 1
            elif k == 'end' and open_:
                ch = src.pick(sorted(open_))
                o = open_[ch]
                seq = o[0] if src.bool(0.93) else o[0] ^ 1
                ops.append(('end', ch, seq))
                if seq == o[0]:
                    del open_[ch]
            elif k == 'abort' and open_:
                ch = src.pick(sorted(open_))
                del open_[ch]
                ops.append(('abort', ch))
            elif k == 'rcv':
                for _ in range(src.int(1, 4)):
                    ops.append(('rcv',))
            elif k == 'reopen' and store == 'file' and not open_:
                ops.append(('reopen', src.bool(), lims['hard'] if src.bool(0.6) else src.pick([0, 1, 2, 4])))
        c['ops'] = ops
        c['emptyt'] = src.wpick((20, 0), (2, 1), (1, 23), (1, 110))
        return c

    def run(self, case, ctx):
        d = ctx.dir()
        envl = 'env %s 16' % (hx(d.encode()) if case['store'] != 'mem' else '-')
        name = hx(b'pctl') if case['store'] == 'file' else '-'
        if case['kind'] == 'threads':
            prog = [envl, 'popen %d 0 %d 0 0 %d %s' % (case['nch'], case['hard'], case['minsize'], name),
                    'pthreads %d %d %d %d %d' % (case['nch'], case['per'], case['maxf'], case['tmo'], case['mask']),
                    'prcv 0', 'pclose', 'envclose']
            r = ctx.drive('d_queue', prog, d, timeout=20)
            out = Outcome(bad=r.crash(), tags=['threads'], nontrivial=True)
            out.confirm = (20, 1)
            if not out.bad:
                tot, ooo, bad, dup, errs = map(int, r.get('pthreads')[0])
                want = case['nch'] * case['per']
                if (tot, ooo, bad, dup, errs) != (want, 0, 0, 0, 0):
                    out.bad = ('%d products sent by %d concurrent readers: %d received, %d out of the order of their channel, '
                               '%d altered, %d twice, %d errors' % (want, case['nch'], tot, ooo, bad, dup, errs))
                elif r.get('prcv')[0][0] != '1':
                    out.bad = 'something is left in the queue after all products were taken'
            return out
        hard = case['hard']

        def popen():
            return 'popen %d %d %d %d %d %d %s' % (case['nch'], case['soft'], hard, case['mfsoft'], case['mfhard'],
                                                   case['minsize'], name)

        prog, want = [envl, popen()], [['popen', '1']]
        q, act, tot = [], {}, 0
        nt, tags, unsure = False, {case['store']}, False
        maxq = 0

        def add(p, w):
            prog.append(p)
            want.append(w)

        for op in case['ops'] + [('rcv',)] * 60:
            if op[0] == 'begin':
                _, ch, seq, nf, tag = op
                was = ch in act
                add('pbegin %d %d %d %d' % (ch, seq, nf, tag), ['pbegin', str(int(was)), str(int(not was)), '1'])
                if not was:
                    act[ch] = dict(seq=seq, nf=nf, tag=tag, fr=[], got=0)
                else:
                    tags.add('start over an unfinished product')
            elif op[0] == 'frame':
                _, ch, seq, b, tag, n, fc = op
                a = act.get(ch)
                if a is None or seq == 0:
                    continue
                if a['seq'] != seq:
                    st = 1
                elif b != a['got']:
                    st = 2
                else:
                    st = 0
                    a['got'] += 1
                    a['fr'].append((tag, n, fc))
                add('pframe %d %d %d %d %d %d' % (ch, seq, b, tag, n, fc), ['pframe', str(st)])
            elif op[0] == 'end':
                _, ch, seq = op
                a = act.get(ch)
                if a is None:
                    continue
                st, qs = 0, -9
                if a['seq'] != seq:
                    st = 1
                elif a['nf'] > a['got']:
                    st = 2
                    tags.add('incomplete')
                else:
                    size = sum(n for _, n, _ in a['fr'])
                    lim = case['mfhard'] * MB
                    if hard and len(q) >= hard:
                        qs = 2
                        tags.add('rejected: number')
                    elif lim and tot + size > lim:
                        qs = 2
                        tags.add('rejected: memory')
                    elif lim and tot + size + 64 * (sum(len(x['fr']) for x in q) + len(a['fr'])) > lim:
                        # between the two: the bytes the queue itself adds decide
                        break
                    else:
                        qs = 0
                        q.append(a)
                        tot += size
                        maxq = max(maxq, len(q))
                add('pend %d %d' % (ch, seq), ['pend', str(st), str(qs), str(len(q))])
                if st != 1:
                    del act[ch]
            elif op[0] == 'abort':
                if op[1] in act:
                    del act[op[1]]
                    add('pabort %d' % op[1], ['pabort'])
            elif op[0] == 'rcv':
                if q:
                    a = q.pop(0)
                    tot -= sum(n for _, n, _ in a['fr'])
                    nt = nt or maxq >= 2
                    add('prcv %d' % (1000 if len(a['fr']) % 2 else -1),
                        ['prcv', '0', str(a['seq']), str(a['tag']), '1', str(len(a['fr'])), str(len(q)), None] +
                        ['%d:%d:%d:1' % f for f in a['fr']])
                elif want[-1][:2] != ['prcv', '1']:
                    add('prcv %d' % case['emptyt'], ['prcv', '1', '0', '0', '0', '0', '0', None])
            elif op[0] == 'reopen':
                add('pclose', ['pclose'])
                if op[1]:
                    prog += ['envclose', envl]
                hard = op[2]
                add(popen(), ['popen', '1'])
                if q:
                    tags.add('reopened with products waiting')
        add('pclose', ['pclose'])
        prog.append('envclose')
        r = ctx.drive('d_queue', prog, d)
        out = Outcome(nontrivial=nt, tags=sorted(tags))
        out.bad = r.crash()
        if not out.bad:
            cmds = [p for p in prog if p.split()[0] not in ('env', 'envclose')]
            for i, w in enumerate(want):
                g = r.lines[i] if i < len(r.lines) else []
                if len(g) != len(w) or any(a is not None and a != b for a, b in zip(w, g)):
                    out.bad = 'after %r: expected %r, got %r' % (cmds[max(0, i - 3):i + 1], w, g)
                    return out
                if g[:2] == ['prcv', '1'] and int(g[7]) < case['emptyt'] - 5:
                    out.bad = 'an empty queue was reported after %s ms although the time limit is %d ms' % (g[7], case['emptyt'])
                    return out
        return out
