"""nbsprecover and the recover filter: missing products are fetched from the other server and inserted once."""
import datetime, os, time
from pbt import Outcome
from tclinst import Site

NAMES = ['tjsj_saus42-mtrsju', 'kwbc_yzdz98+grib2', 'knes_tirs00', 'kfwd_fpus54-zfpfwd', 'k2tx_x', 'kokx_sdus51-n0rokx']
REC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drv/curlrec.sh')

PATHCONF = 'set env(PATH) {%s/bin:%s/bin:%s/libexec/nbsp:/usr/bin:/bin};\n'


def fakes(site, *names):
    for n in names:
        os.chmod(site.put('bin/' + n, open(REC, 'rb').read()), 0o755)
    os.makedirs(site.d + '/rec/web', exist_ok=True)
    os.makedirs(site.d + '/rec/fail', exist_ok=True)
    site.extra = {'NBSP_REC': site.d + '/rec', 'PATH': '%s/bin:%s/bin:%s/libexec/nbsp:/usr/bin:/bin' % (site.d, site.inst, site.inst)}


def calls(site):
    """[(name, arguments, lines of its input)] since the last time."""
    p = site.d + '/rec/calls'
    out = []
    if os.path.exists(p):
        for l in open(p).read().split('\n')[:-1]:
            if l.startswith(' '):
                out[-1][2].append(l[1:])
            else:
                a = l.split('\037')
                out.append((a[0], a[1:], []))
        os.remove(p)
    return out


def curlargs(a):
    """(url, file, time limit, other options)"""
    o, f, url, rest = None, None, None, []
    a = list(a)
    while a:
        x = a.pop(0)
        if x == '-o' and a:
            f = a.pop(0)
        elif x == '-m' and a:
            o = a.pop(0)
        elif x.startswith('-'):
            rest.append(x)
        else:
            url = x
    return url, f, o, sorted(rest)


class Check:
    pid = 'C38'
    title = 'Every missing product is asked for exactly once, and inserted if it is found'
    parts = ['inst']
    drivers = []
    quick, thorough = 700, 30000
    rule = 'a case counts as non-trivial when products were recovered and others not, or after a failure, or in more than one run'
    assumptions = ['the file of the missing products only grows', 'the other server is a stand-in for curl']

    def gen(self, src):
        t0 = int(datetime.datetime(2026, src.int(1, 12), src.int(1, 28), src.draw(24), src.wpick((2, src.draw(60)), (1, 59)), src.draw(60), tzinfo=datetime.timezone.utc).timestamp())
        tool = src.bool(0.6)
        c = dict(tool=tool, t0=t0, f=src.bool(0.4), prods=[], runs=[], tz=src.pick(['UTC', 'America/Puerto_Rico', 'Asia/Tokyo']))
        c['conf'] = dict(host=src.wpick((1, None), (2, src.pick(['other:8015', '192.0.2.7:80', 'np.example.org:8016']))), retries=src.wpick((2, None), (3, src.draw(5))),
                         timeout=src.wpick((2, None), (1, src.int(1, 60))), opts=src.wpick((3, None), (1, src.pick(['-f', '-f -s', '-f -L --compressed', '-s -f -k']))),
                         enable=src.wpick((3, None), (2, 1), (1, 0)), fmt=src.wpick((4, None), (1, src.pick(['%H.log', '%Y-%m-%d', 'all.log']))),
                         dir=src.bool(0.3), spool=src.bool(0.5), fifo=src.bool(0.4))
        c['nodir'] = src.wpick((30, None), (1, 'recover'), (1, 'spool')) if not tool else None
        now = t0
        for _ in range(src.wpick((2, 1), (4, src.int(2, 4))) if tool else 1):
            now += src.wpick((3, src.draw(4000)), (1, 86400), (1, 0))
            k = []
            for _ in range(src.wpick((1, 0), (5, src.int(1, 6)), (1, src.int(6, 15)))):
                n = src.pick(NAMES)
                seq = src.wpick((5, src.int(1, 99999)), (1, src.int(4000000, 4294967295)))
                if not tool:
                    now += src.wpick((3, 0), (2, src.draw(100)), (1, src.draw(86400)))
                c['prods'].append(dict(line=[now - src.draw(500), seq, src.int(1, 9), src.draw(200), src.draw(100), src.draw(9), '%s.%02d%02d%02d_%d' % (n, src.int(1, 31), src.draw(24), src.draw(60), seq)],
                                       size=src.wpick((4, src.draw(60)), (1, src.int(2000, 20000)), (2, None)), fail=src.wpick((4, 0), (2, src.int(1, 4))), ins=src.bool(0.1), now=now))
                k.append(len(c['prods']) - 1)
            if k and src.bool(0.15):
                # missed again
                c['prods'].append(dict(c['prods'][src.pick(k)], now=now))
                k.append(len(c['prods']) - 1)
            c['runs'].append(dict(now=now, k=k, quit=src.bool(0.4)))
        c['nofile'] = tool and src.bool(0.1)
        return c

    def run(self, c, ctx):
        d = ctx.dir()
        site = Site(ctx, d, conf=PATHCONF % (d, ctx.src['inst'], ctx.src['inst']))
        fakes(site, 'curl', 'nbspinsert')
        g = c['conf']
        conf = ''
        for k, v in (('backuphostport', g['host']), ('curl_retries', g['retries']), ('curl_timeout', g['timeout']), ('infeed_enable', g['enable']), ('fnameformat', g['fmt']),
                     ('curl_options', g['opts'] and '{%s}' % g['opts']), ('dir', g['dir'] and site.d + '/recdir')):
            if v is not None and v is not False:
                conf += 'set recover(%s) %s\n' % (k, v if k == 'curl_options' else '{%s}' % v)
        site.put('etc/recover.conf', conf)
        rdir = 'recdir' if g['dir'] else 'var/noaaport/nbsp/recover'
        spool = 'myspool' if g['spool'] else 'var/noaaport/nbsp/spool'
        fifo = site.d + '/feed.fifo' if g['fifo'] else '/var/run/nbsp/infeed.fifo'
        missing = 'my/nbspd.missing' if c['f'] else 'var/noaaport/nbsp/stats/nbspd.missing'
        conf = ''
        if g['spool']:
            conf += 'set spooldir %s/%s\n' % (site.d, spool)
        if g['fifo']:
            conf += 'set infeedfifo %s\n' % fifo
        f = []
        if c['f']:
            if c['t0'] % 2:
                f = ['-f', site.d + '/' + missing]
            else:
                conf += 'set missinglogfile %s/%s\n' % (site.d, missing)
        if conf:
            site.put('etc/nbspd.conf', conf)
        for x, d in (('recover', rdir), ('spool', spool)):
            if c['nodir'] != x:
                os.makedirs(site.d + '/' + d)
        out = Outcome()
        out.tags = ['tool' if c['tool'] else 'filter']
        host = g['host'] or 'noaaport2:8015'
        retries = 2 if g['retries'] is None else g['retries']
        opts = sorted((g['opts'] or '-f -s -S').split())
        fmt = g['fmt'] or '%Y%m%d.log'
        left, logs, files = {}, {}, {}
        for p in c['prods']:
            u = '%s/_get/spool/%s' % (host, p['line'][6])
            if p['size'] is not None:
                site.put('rec/web/' + u, b'%d ' % p['line'][1] + b'x' * p['size'])
            if p['fail']:
                site.put('rec/fail/' + u, '%d\n' % p['fail'])
            left[u] = p['fail']
            if p['ins']:
                site.put('rec/fail/nbspinsert.%d' % p['line'][1], '')
        if c['nofile']:
            r = site.script('nbsprecover', f, now=c['t0'], tz=c['tz'])
            if r.code or calls(site):
                return self.bad(out, 'nbsprecover without the file of the missing products: status %s, %r' % (r.code, r.out + r.err))
        text = ''
        kinds = set()
        for run in c['runs']:
            want = []
            inp = ''
            for k in run['k']:
                p = c['prods'][k]
                l = ' '.join(str(x) for x in p['line'])
                text += l + '\n'
                inp += '@now %d\n%s\n' % (p['now'], l)
                if c['nodir']:
                    continue
                fb = p['line'][6]
                u = '%s/_get/spool/%s' % (host, fb)
                path = '%s/%s/%s/%s' % (site.d, spool, fb[:4], fb)
                ok = False
                for i in range(retries + 1):
                    want.append(('curl', ('http://' + u, path, str(g['timeout'] or 1), opts)))
                    web = [q['size'] for q in c['prods'] if q['line'][6] == fb][-1]
                    if left[u] > 0:
                        left[u] -= 1
                        kinds.add('retry')
                    elif os.path.exists(site.d + '/rec/web/' + u):
                        ok = True
                        break
                kinds.add(ok)
                n = time.strftime(fmt, time.gmtime(run['now'] if c['tool'] else p['now']))
                logs[n] = logs.get(n, '') + l + (' R\n' if ok else ' U\n')
                if ok:
                    files['%s/%s' % (fb[:4], fb)] = open(site.d + '/rec/web/' + u, 'rb').read()
                    if g['enable'] != 0:
                        want.append(('nbspinsert', ['-f', fifo] + [str(x) for x in p['line'][1:6]] + [fb[:fb.rindex('.')], path], True))
            if c['tool']:
                site.put(missing, text)
                r = site.script('nbsprecover', f, now=run['now'], tz=c['tz'])
            else:
                if run['quit'] and run['k']:
                    inp += '\n1 1 1 1 1 1 tjsj_after.010000_1\n'
                r = site.script('recover', stdin=inp.encode(), now=run['now'], tz=c['tz'])
            got = []
            for n, a, i in calls(site):
                if n == 'curl':
                    got.append((n, curlargs(a)))
                else:
                    got.append((n, a, 'file' in i))
            out.evals = getattr(out, 'evals', 0) + len(run['k'])
            if got != want:
                i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                return self.bad(out, 'run at %d, call %d of %d: %s, expected %s of %d (%r)' % (run['now'], i, len(got), got[i:i + 1], want[i:i + 1], len(want), (r.out + r.err)[-300:]))
            if r.code or r.crash:
                return self.bad(out, 'status %s %s: %r' % (r.code, r.crash, (r.out + r.err)[-300:]))
        out.nontrivial = len(kinds) > 1 or True in kinds and len(c['runs']) > 1
        if c['nodir']:
            return out
        got = site.files(rdir)
        for k in sorted(set(got) | set(logs)):
            if k != 'nbsprecover.state' and got.get(k) != (logs[k].encode() if k in logs else None):
                return self.bad(out, 'log %s: %r, expected %r' % (k, got.get(k), logs.get(k)))
        got = {k: v for k, v in site.files(spool).items() if v != ('dir',)}
        for k in sorted(set(got) | set(files)):
            if got.get(k) != files.get(k):
                return self.bad(out, 'spool %s: %r, expected %r' % (k, (got.get(k) or b'')[:80], (files.get(k) or b'')[:80]))
        return out

    def bad(self, out, s):
        out.bad = s
        return out


CHECK = Check()
