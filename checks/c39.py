"""nbspbatch and the batch script: the products of another server, minute by minute."""
import datetime, os, time
from pbt import Outcome
from tclinst import Site
from c34 import wild
from c38 import PATHCONF, NAMES, fakes, calls, curlargs

EXPR = ['saus', '^kwbc', 'grib', 'sdus,!n0r', '_s[ad]us', 'mtr,tirs', '!mtr', 'tjsj, !mtr', 'x$', '^k', '^k,!_fpus,zfp', 'nothing', 'a b', '']


def hm(t):
    return time.strftime('%H%M', time.gmtime(t))


class Check:
    pid = 'C39'
    title = 'nbspbatch gets and hands on the products of each minute exactly once'
    parts = ['inst']
    drivers = []
    quick, thorough = 500, 20000
    rule = 'a case counts as non-trivial when products of at least two minutes were retrieved in at least two runs'
    assumptions = ['runs are less than a day apart', 'the other server is a stand-in for curl']

    def gen(self, src):
        # no times in which the inventory of a minute would be asked for again on the next day
        t0 = int(datetime.datetime(2026, src.int(1, 12), src.int(1, 28), src.wpick((3, src.draw(24)), (1, 23)), src.wpick((2, src.draw(60)), (1, 59), (1, 0)), src.draw(60), tzinfo=datetime.timezone.utc).timestamp())
        c = dict(t0=t0, script=src.bool(0.2), tz=src.pick(['UTC', 'America/Puerto_Rico', 'Asia/Tokyo']))
        c['opt'] = {}
        for k, v in (('b', src.pick(['batch', 'd/e', '@abs'])), ('i', 'q/i'), ('s', 'files'), ('e', src.pick(EXPR)), ('f', '.lst'), ('g', '.bad'), ('I', 'invx'), ('S', 'sp/x'), ('m', src.int(1, 60)), ('r', src.draw(4)), ('l', 'last')):
            if src.bool({'e': 0.5, 'b': 0.6, 'r': 0.5}.get(k, 0.2)):
                c['opt'][k] = v
        c['flag'] = ''.join(x for x in 'qc' if src.bool(0.4)) + ('n' if src.bool(0.15) else '')
        c['mkdir'] = src.bool(0.9)
        now = t0
        c['runs'], c['mins'] = [], {}
        for i in range(src.int(1, 6)):
            last = now
            now += src.wpick((2, src.draw(60)), (5, src.int(60, 300)), (1, src.int(300, 900)))
            k = 'batch' if c['script'] else src.wpick((6, 'update'), (1, 'get'), (3, 'filter'))
            r = dict(k=k, now=now)
            if k == 'update':
                r['t'] = src.wpick((6, None), (1, now - src.int(60, 700)), (1, now + src.draw(2) * 50)) if i else src.wpick((3, None), (1, now - src.int(60, 700)))
            if k == 'get':
                r['h'] = src.wpick((1, None), (2, hm(now - src.draw(600))))
            if k == 'filter':
                r.update(a=src.bool(0.6), h=hm(now - src.int(30, 240)), p=src.wpick((3, 'procrec'), (1, None), (1, '')), keep=src.bool(0.2), bad=src.bool(0.15), e=src.wpick((3, None), (1, src.pick(EXPR))))
            c['runs'].append(r)
        t = t0 - 720
        while t <= now + 60:
            n = src.wpick((4, 0), (4, src.int(1, 3)), (1, src.int(3, 8)))
            c['mins'][hm(t)] = dict(n=[dict(seq=src.int(1, 4294967295), f=[src.int(1, 9), src.draw(100), src.draw(100), src.draw(9), src.draw(10 ** 5)], fn=src.pick(NAMES),
                                            size=src.wpick((5, src.draw(60)), (1, None)), fail=src.wpick((6, 0), (1, src.int(1, 5)))) for _ in range(n)],
                                    fail=src.wpick((30, 0), (1, 1)), t=t)
            t += 60
        c['step'] = src.wpick((2, 0), (1, src.int(1, 5)), (1, src.int(20, 70)))
        c['big'] = src.wpick((40, None), (1, hm(t0 - 60)))
        return c

    def run(self, c, ctx):
        d = ctx.dir()
        o = c['opt']
        conf = PATHCONF % (d, ctx.src['inst'], ctx.src['inst'])
        site = Site(ctx, d, conf=conf)
        fakes(site, 'curl', 'nbspinsert', 'procrec')
        g = lambda k, v: o.get(k, v)
        host = 'noaaport:8015' if c['script'] and 'm' in o else 'master.example.org:8016'
        base = site.var + '/noaaport/nbsp' if c['script'] else {'@abs': d + '/ab/s'}.get(g('b', 'batch'), site.work + '/' + g('b', 'batch'))
        if c['script']:
            o = {'e': o['e']} if o.get('e') else {}
            site.put('etc/batch.conf', ('' if host == 'noaaport:8015' else 'set batch(masterhostport) %s\n' % host) + ('set batch(regex) {%s}\n' % o['e'] if o else '')
                     + ('set batch(infeed_enable) 0\n' if 'n' in c['flag'] else ''))
        flag = '' if c['script'] else c['flag']
        qd, sd, ext, err, expr = '%s/%s' % (base, g('i', 'batchq')), '%s/%s' % (base, g('s', 'spool')), g('f', '.q'), g('g', '.err'), g('e', '')
        g = lambda k, v: o.get(k, v)
        if c['mkdir'] or c['script']:
            os.makedirs(base, exist_ok=True)
        U = host + '/_get/'
        left = {}
        inv = {}
        for h, m in c['mins'].items():
            inv[h] = []
            if c['big'] == h:
                m['n'] = [dict(seq=7000000 + i, f=[1, 2, 3, 4, 5], fn=NAMES[0], size=None, fail=0) for i in range(3000)] if 'n' in flag else m['n']
            for p in m['n']:
                fb = '%s.%s_%d' % (p['fn'], time.strftime('%d%H%M', time.gmtime(m['t'])), p['seq'])
                f = p['f']
                inv[h].append(('%d %d %d %d %d %d %d %s' % (m['t'] // 60 * 60, p['seq'], f[0], f[1], f[2], f[3], f[4], fb), fb))
                u = U + '%s/%s' % (g('S', 'spool'), fb)
                left[u] = [p['fail'], None if p['size'] is None else b'%d ' % p['seq'] + b'y' * p['size']]
            left[U + '%s/%s' % (g('I', 'inv'), h)] = [m['fail'], ''.join(l + '\n' for l, fb in inv[h]).encode()]
        for u, (n, x) in left.items():
            if n:
                site.put('rec/fail/' + u, '%d\n' % n)
            if x is not None:
                site.put('rec/web/' + u, x)
        if c['step']:
            site.extra = dict(site.extra, NBSP_NOWFILE=d + '/rec/now')
        out = Outcome()
        out.tags = ['script' if c['script'] else 'tool']
        Q, files, errs, last = {}, {}, set(), None
        minutes, runs = set(), 0
        exists = c['mkdir'] or c['script']

        def fetch(u, tries, f, want):
            for _ in range(tries):
                want.append(('curl', ('http://' + u, f, str(o.get('m', 10)))))
                if u not in left or left[u][1] is None:
                    continue
                if left[u][0] > 0:
                    left[u][0] -= 1
                    continue
                return left[u][1]
            return None

        def get(h, want):
            nonlocal exists
            if not exists and 'c' not in flag:
                return 1
            x = fetch(U + '%s/%s' % (o.get('I', 'inv'), h), 1, None, want)
            if x is None:
                return 1
            exists = True
            Q[h] = []
            for l, fb in inv[h]:
                if expr and not wild(expr, fb):
                    continue
                if 'n' not in flag:
                    path = '%s/%s/%s' % (sd, fb[:4], fb)
                    x = fetch(U + '%s/%s' % (o.get('S', 'spool'), fb), o.get('r', 3) + 1, path, want)
                    if x is None:
                        continue
                    files[path] = x
                    minutes.add(h)
                Q[h].append(l)
            return 0

        def update(r, want):
            nonlocal last
            t = r.get('t')
            if t is None and last is None:
                if get(hm(r['now'] - 60), want):
                    return 1
                last = r['now']
                return 0
            t = last if t is None else t
            if t >= r['now']:
                return 1
            while hm(t) != hm(r['now']):
                if get(hm(t), want):
                    return 1
                t += 60
            last = r['now']
            return 0

        def hand(h, e, keep, p, want, prt, bad):
            L = []
            for l in Q[h]:
                f = l.split(' ')
                if e and not wild(e, f[7]):
                    continue
                L.append(' '.join(f[1:6] + [f[7][:f[7].rindex('.')], '%s/%s/%s' % (sd, f[7][:4], f[7])]))
            if L:
                if p == '':
                    prt.extend(L)
                else:
                    want.append((p, [], L))
                    if bad:
                        errs.add(h)
            if not keep:
                del Q[h]

        for r in c['runs']:
            want, prt = [], []
            k = r['k']
            code = 0
            if k == 'batch':
                update(r, want)
                if 'n' not in c['flag']:
                    for h in list(Q):
                        hand(h, '', False, 'nbspinsert', want, prt, False)
                a = None
            elif k == 'filter':
                e = r['e'] if r['e'] is not None else ''
                p = 'nbspinsert' if r['p'] is None else r['p']
                a = ['filter'] + (['-k'] if r['keep'] else []) + (['-e', e] if e else [])
                for x in 'bifgs':
                    if x in o:
                        a += ['-' + x, base if x == 'b' and o[x] == '@abs' else o[x]]
                if r['p'] is not None:
                    a += ['-p', p]
                bf = site.d + '/rec/fail/' + p
                if p and r['bad']:
                    site.put(bf, '')
                elif p and os.path.exists(bf):
                    os.remove(bf)
                if r['a']:
                    a += ['-a']
                    for h in list(Q):
                        hand(h, e, r['keep'], p, want, prt, r['bad'])
                else:
                    a += [r['h']]
                    if r['h'] in Q:
                        hand(r['h'], e, r['keep'], p, want, prt, r['bad'])
                    else:
                        code = 1
            else:
                a = [k]
                for x in sorted(set(o) - set('g') - (set('l') if k == 'get' else set())):
                    a += ['-' + x, base if x == 'b' and o[x] == '@abs' else str(o[x])]
                a += ['-' + x for x in flag]
                if k == 'get':
                    h = r['h'] or hm(r['now'] - 60)
                    a += ['-h', r['h']] if r['h'] else []
                    code = get(h, want)
                else:
                    if r.get('t') is not None:
                        if not exists and r['t'] >= r['now']:
                            continue
                        a += ['-t', str(r['t'])]
                    code = update(r, want)
                a += [host]
            if c['step']:
                site.put('rec/step', '%d\n' % c['step'])
                site.put('rec/now', '%d\n' % r['now'])
            res = site.script('batch', [], now=r['now'], tz=c['tz']) if a is None else site.script('nbspbatch', a, now=r['now'], tz=c['tz'])
            got = [(n, curlargs(x)[:3]) if n == 'curl' else (n, x, i) for n, x, i in calls(site)]
            for i, (x, y) in enumerate(z[:2] for z in got):
                if x == 'curl' and y[1] and not y[1].startswith('/'):
                    got[i] = (x, (y[0], os.path.normpath(site.work + '/' + y[1]), y[2]))
            # the minutes are handed on in any order
            key = lambda L: [x for x in L if x[0] == 'curl'] + sorted(x for x in L if x[0] != 'curl')
            got, want = key(got), key(want)
            ee = (r, (res.out + res.err)[-300:])
            if got != want:
                i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                return self.bad(out, 'call %d of %d: %s, expected %s of %d (%s)' % (i, len(got), str(got[i:i + 1])[:600], str(want[i:i + 1])[:600], len(want), ee))
            if (res.code != 0) != (code != 0) or res.crash:
                return self.bad(out, 'status %s %s, expected %d (%s)' % (res.code, res.crash, code, ee))
            if k == 'filter' and r['p'] == '' and sorted(res.out.decode().split('\n')) != sorted(prt + ['']):
                return self.bad(out, 'printed %r, expected %r' % (res.out[-400:], prt))
            runs += 1
            top = os.path.relpath(base, d)
            have = {os.path.join(base, x): v for x, v in site.files(top).items() if v != ('dir',)}
            exp = dict(files)
            for h in Q:
                exp['%s/%s%s' % (qd, h, ext)] = ''.join(l + '\n' for l in Q[h]).encode()
            if last is not None:
                exp['%s/%s' % (qd, o.get('l', 'batch.time'))] = b'%d\n' % last
            for h in errs:
                x = '%s/%s%s' % (qd, h, err)
                exp[x] = have.get(x)
            for x in sorted(set(have) | set(exp)):
                if have.get(x) != exp.get(x):
                    return self.bad(out, 'after %s: %s is %r, expected %r' % (ee, x, have.get(x), exp.get(x)))
            for h in errs:
                if have.get('%s/%s%s' % (qd, h, err)) is None:
                    return self.bad(out, 'no error file for %s' % h)
        out.evals = runs
        out.nontrivial = len(minutes) > 1 and runs > 1
        return out

    def bad(self, out, s):
        out.bad = s
        return out


CHECK = Check()
