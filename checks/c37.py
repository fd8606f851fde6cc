"""The inventory filter and the reports on its counters and those of the server."""
import datetime, os, time, zoneinfo
from pbt import Outcome
from tclinst import Site

ZONES = ['UTC', 'UTC', 'America/Puerto_Rico', 'Asia/Kolkata', 'Asia/Tokyo']
META = ['data_format', 'nbspd_start_time', 'nbspstats_logperiod_secs', 'qstate_logperiod_secs']
SKEYS = ['stats_time', 'frames_received', 'frames_processed', 'frames_jumps', 'frames_bad', 'frames_data_size', 'products_transmitted', 'products_completed', 'products_missed',
         'products_retransmitted', 'products_retransmitted_complete', 'products_retransmitted_processed', 'products_retransmitted_ignored', 'products_retransmitted_recovered',
         'products_rejected', 'products_aborted', 'products_bad']
QKEYS = ['qstate_time', 'queue_processor', 'queue_filter', 'queue_server']
CKEYS = ['chstats_time', 'chstats_hhmm'] + ['chstats_files_%d' % i for i in range(1, 10)] + ['chstats_bytes_%d' % i for i in range(1, 10)]
MKEYS = ['data_format', 'monitor_code', 'poll_time', 'stats_time', 'chstats_time', 'stats_timediff', 'chstats_timediff', 'total_files', 'total_bytes']


def utc(t, f):
    return time.strftime(f, time.gmtime(t))


def fmt_pairs(f, pairs):
    if f == 'csv':
        return ','.join(v for k, v in pairs)
    if f == 'csvk':
        return ','.join('%s=%s' % x for x in pairs)
    return '\n'.join({'std': '%s=%s', 'yaml': '%s:%s', 'xml': '<%s>%s</%s>'}[f] % ((k, v, k) if f == 'xml' else (k, v)) for k, v in pairs)


class Check:
    pid = 'C37'
    title = 'The inventory lists every product and its reports state what was counted'
    parts = ['inst']
    drivers = []
    quick, thorough = 1000, 60000
    rule = 'a case counts as non-trivial when the inventory changed files at least twice with products on several channels, or a report summed up several lines'
    assumptions = ['one inventory filter runs without being restarted in the same hour', 'the counters are read in the hour of the last minute counted or in the next one']

    # ---- generation

    def status_lines(self, src, t):
        out = []
        for i in range(src.wpick((1, 0), (2, 1), (5, src.int(2, 8)), (1, src.int(40, 90)))):
            out.append([t] + [src.wpick((2, 0), (4, src.int(1, 300)), (1, src.int(1, 4000000)), (1, 4294967295)) for _ in range(16)])
            t += src.wpick((5, 60), (1, src.int(50, 70)), (1, src.int(600, 90000)))
        return out

    def gen(self, src):
        t0 = int(datetime.datetime(src.pick([2024, 2026]), src.int(1, 12), src.int(1, 28), src.draw(24), src.wpick((2, src.draw(60)), (1, 59), (1, 0)), src.draw(60),
                                   tzinfo=datetime.timezone.utc).timestamp())
        kind = src.wpick((6, 'inv'), (2, 'stats'), (2, 'qstate'), (3, 'plot'))
        c = dict(kind=kind, now=t0, tz=src.pick(ZONES))
        if kind == 'inv':
            now, c['msgs'] = t0, []
            for i in range(src.wpick((1, 0), (6, src.int(1, 12)), (1, src.int(12, 40)))):
                now += src.wpick((6, 0), (4, src.int(1, 70)), (1, src.pick([60, 3600, 3540, 86400])), (1, src.int(600, 9000)))
                c['msgs'].append(dict(now=now, seq=src.wpick((5, src.int(1, 99999)), (1, src.int(4000000, 4294967295))), type=src.int(1, 9), cat=src.draw(200), code=src.draw(100),
                                      idx=src.draw(9), fn=src.pick(['tjsj_saus42-mtrsju', 'kwbc_yzdz98+grib2', 'knes_tirs00+pa1', 'kfwd_fpus54', 'x_y']),
                                      size=src.wpick((3, None), (3, src.int(0, 200)), (1, src.int(3000, 9000))), meta=src.wpick((4, None), (2, str(src.int(0, 10 ** 8))), (1, '%d:a:b' % src.int(0, 999)))))
            c['end'] = now + src.wpick((3, 0), (2, src.int(1, 90)), (1, src.int(90, 4000)))
            c['quit'] = src.bool(0.5)
            c['old'] = src.bool(0.5)
            c['read'] = c['end'] + src.wpick((3, 0), (3, src.int(1, 59)), (3, src.int(59, 63)), (1, src.int(60, 3000)))
            c['fmt'], c['mfmt'] = src.pick(['std', 'csv', 'csvk', 'xml', 'yaml']), src.pick(['std', 'csv', 'csvk', 'xml', 'yaml', None])
            c['status'] = src.wpick((4, self.status_lines(src, c['read'] - src.wpick((2, src.int(0, 62)), (1, src.int(0, 3000))))), (1, None))
            c['qstate'] = src.wpick((4, [[c['read'] - src.int(0, 100)] + [src.draw(1000) for _ in range(3)] for _ in range(src.int(1, 3))]), (1, None))
            c['pid'] = src.wpick((3, t0 - src.int(0, 10 ** 6)), (1, None))
            c['periods'] = src.wpick((3, None), (1, (src.int(1, 600), src.int(1, 600))))
            c['opt'] = [src.bool(0.15) for _ in range(3)]
            return c
        c['name'] = src.bool(0.5)
        if kind == 'qstate':
            t = t0
            c['lines'] = []
            for _ in range(src.int(1, 14)):
                c['lines'].append([t] + [src.pick([0, src.draw(100), src.draw(10 ** 6)]) for _ in range(3)])
                t += src.int(50, 70)
            return c
        c['lines'] = self.status_lines(src, t0 - src.wpick((1, 0), (3, src.draw(86400))))
        c['period'] = src.wpick((3, None), (1, src.int(1, 600)))
        if kind == 'plot':
            loc = datetime.datetime.fromtimestamp(t0, zoneinfo.ZoneInfo(c['tz']))
            c['m'] = src.bool(0.4)
            c['D'] = src.wpick((3, None), (2, '%02d' % src.int(1, 31)), (2, '%02d' % loc.day), (1, '%d' % loc.day), (1, '%d' % src.int(1, 31)))
            c['h'] = src.wpick((3, None), (2, '%02d' % src.draw(24)), (2, '-%d' % src.int(0, loc.hour)))
            c['out'] = src.wpick((2, None), (1, 'o'), (1, 'bo'), (1, 'bdo'))
        return c

    # ---- execution

    def script(self, site, name, args, **kw):
        r = site.script(name, args, **kw)
        r.out, r.err = r.out.decode('latin-1'), r.err.decode('latin-1')
        return r

    def run(self, c, ctx):
        site = Site(ctx, ctx.dir())
        out = Outcome()
        out.tags = [c['kind']]
        out.bad = getattr(self, c['kind'])(c, ctx, site, out)
        return out

    def table(self, lines):
        return ''.join(' '.join(str(x) for x in l) + '\n' for l in lines)

    def inv(self, c, ctx, site, out):
        inv = site.var + '/noaaport/nbsp/inv'
        os.makedirs(inv)
        os.makedirs(site.var + '/noaaport/nbsp/stats')
        F, S, seconds, root, sroot = {}, {}, c['now'], None, None
        if c['old']:
            for m in c['msgs'][:30] + [dict(now=c['now']), dict(now=c['read']), dict(now=c['end'])]:
                for k, d, t in ((utc(m['now'], '%H%M.log'), F, 'old\n'), (utc(m['now'], '%H.stats'), S, '%d 0000 %s\n' % (m['now'] // 3600 * 3600 - 86000, ' '.join(['7777'] * 18)))):
                    if k not in d:
                        site.put('var/noaaport/nbsp/inv/' + k, t, mtime=1000000000)
                        d[k] = t
        cnt = [0] * 18
        last = None
        changes = 0

        def stats(t):
            nonlocal sroot, seconds, cnt, last
            k = utc(seconds, '%H')
            if k != sroot:
                sroot = k
                S[k + '.stats'] = ''
            S[k + '.stats'] += ' '.join(str(x) for x in [t, utc(seconds, '%H%M')] + cnt) + '\n'
            last = (k, [str(t), utc(seconds, '%H%M')] + [str(x) for x in cnt])
            seconds, cnt = t, [0] * 18

        inp = []
        for i, m in enumerate(c['msgs']):
            fb = '%s.%s_%d' % (m['fn'], utc(m['now'], '%d%H%M'), m['seq'])
            p = '%s/spool/%d/%s' % (site.d, i, fb)
            if m['size'] is not None:
                site.put('spool/%d/%s' % (i, fb), b'z' * m['size'])
            size = int(m['meta'].split(':')[0]) if m['meta'] is not None else m['size'] or 0
            k = utc(m['now'], '%H%M')
            if k != root:
                if root is not None:
                    stats(m['now'])
                root = k
                F[k + '.log'] = ''
                changes += 1
            F[k + '.log'] += '%d %d %d %d %d %d %d %s\n' % (m['now'], m['seq'], m['type'], m['cat'], m['code'], m['idx'], size, fb)
            cnt[m['idx']] += 1
            cnt[9 + m['idx']] += size
            inp.append('@now %d\n%d %d %d %d %d %s %s%s\n' % (m['now'], m['seq'], m['type'], m['cat'], m['code'], m['idx'], m['fn'], p, ' ' + m['meta'] if m['meta'] else ''))
        inp.append('@now %d\n%s' % (c['end'], '\n' if c['quit'] else ''))
        if root is not None:
            stats(c['end'])
        out.evals = len(c['msgs']) + 2
        out.nontrivial = changes > 2 and len({m['idx'] for m in c['msgs']}) > 1
        r = site.script('inventory', stdin=''.join(inp).encode(), now=c['now'], tz=c['tz'])
        if r.crash or r.code:
            return 'inventory: %s (status %s): %r' % (r.crash, r.code, (r.err + r.out)[-300:])
        got = site.files('var/noaaport/nbsp/inv')
        want = {k: v.encode() for k, v in list(F.items()) + list(S.items())}
        for k in sorted(set(got) | set(want)):
            if got.get(k) != want.get(k):
                return 'inventory file %s: %r, expected %r (%r)' % (k, got.get(k), want.get(k), (r.err + r.out)[-300:])
        # the reports
        if last and last[0] not in (utc(c['read'], '%H'), utc(c['read'] - 3600, '%H')):
            return None
        cv = last[1] if last else None
        if not last:
            # nothing was counted: what the current hour's file holds from the day before does not matter
            if S:
                return None
        conf, args = '', []
        if c['pid'] is not None:
            site.put('work/pid', '1\n', mtime=c['pid'])
        conf += 'set pidfile %s/pid\n' % site.work
        if c['periods']:
            conf += 'set nbspstats_logperiod_secs %d\nset qstate_logperiod_secs %d\n' % c['periods']
        names = dict(s=('statusfile', 'nbspd.status', c['status']), q=('qstatelogfile', 'nbspd.qstate', c['qstate']))
        rows = {}
        for (o, (var, f, lines)), alt in zip(sorted(names.items()), c['opt']):
            p = 'work/' + f if alt else 'var/noaaport/nbsp/stats/' + f
            if alt:
                args += ['-' + o, site.d + '/' + p]
            if lines is not None:
                site.put(p, self.table(lines))
            rows[o] = [str(x) for x in lines[-1]] if lines else None
        monitor = args == []
        if c['opt'][2] and last:
            args += ['-c', inv + '/' + last[0] + '.stats']
        site.put('etc/nbspd.conf', conf)
        pr = [str(x) for x in c['periods'] or (60, 60)]
        vals = ['3', str(c['pid']) if c['pid'] is not None else ''] + pr
        for ks, v in ((SKEYS, rows['s']), (QKEYS, rows['q']), (CKEYS, cv)):
            vals += v or [''] * len(ks)
        keys = META + SKEYS + QKEYS + CKEYS
        r = self.script(site, 'nbspstatcounters', ['-f', c['fmt']] + args, now=c['read'], tz=c['tz'])
        e = fmt_pairs(c['fmt'], list(zip(keys, vals)))
        # commas at the end
        norm = (lambda s: s.strip().rstrip(',')) if c['fmt'].startswith('csv') else (lambda s: '\n'.join(x.strip() for x in s.strip().split('\n')))
        if c['fmt'] == 'yaml':
            n0 = norm
            norm = lambda s: '\n'.join(x.replace(': ', ':').rstrip() for x in n0(s).split('\n'))
        if norm(r.out) != norm(e) or r.code:
            return 'nbspstatcounters %s at %d: %r, expected %r (%s)' % (args, c['read'], norm(r.out), norm(e), r.err[-200:])
        if c['mfmt'] is None or not monitor:
            return None
        num = lambda v: int(v or 0)
        v = dict(zip(keys, vals))
        st, ct = num(v['stats_time']), num(v['chstats_time'])
        tf, tb = sum(num(v['chstats_files_%d' % i]) for i in range(1, 10)), sum(num(v['chstats_bytes_%d' % i]) for i in range(1, 10))
        code = 3 if not tf or not tb else 2 if c['read'] - ct > 60 else 1 if c['read'] - st > 60 else 0
        ev = [1, code, c['read'], st, ct, c['read'] - st, c['read'] - ct, tf, tb]
        r = self.script(site, 'nbspstatmonitor', ['-f', c['mfmt']], now=c['read'], tz=c['tz'])
        e = fmt_pairs(c['mfmt'], list(zip(MKEYS, [str(x) for x in ev])))
        g = r.out.strip().replace(': ', ':').split('\n')
        if [x.strip().rstrip(',') for x in g] != e.split('\n') or r.code:
            return 'nbspstatmonitor -f %s: %r, expected %r (%s)' % (c['mfmt'], r.out, e, r.err[-200:])
        return None

    def where(self, c, site, var, name, opt):
        if c['name']:
            return [opt, site.put('work/' + name, self.table(c['lines']))] if opt else [site.put('work/' + name, self.table(c['lines']))]
        site.put('etc/nbspd.conf', 'set %s %s/my/%s\n' % (var, site.d, name))
        site.put('my/' + name, self.table(c['lines']))
        return []

    def qstate(self, c, ctx, site, out):
        out.nontrivial = len(c['lines']) > 1
        r = self.script(site, 'nbspstats', self.where(c, site, 'qstatelogfile', 'q', '-q') + ['qstate'], now=c['now'], tz=c['tz'])
        e = [['date-time', 'seconds', 'pq', 'fq', 'sq']]
        for l in c['lines'][-10:]:
            e.append([datetime.datetime.fromtimestamp(l[0], zoneinfo.ZoneInfo(c['tz'])).strftime('%Y%m%d-%H:%M')] + [str(x) for x in l])
        g = [x.split() for x in r.out.strip().split('\n')]
        if g != e or r.code:
            return 'nbspstats qstate: %s, expected %s (%s)' % (g, e, r.err[-200:])

    def stats(self, c, ctx, site, out):
        L = c['lines']
        out.nontrivial = len(L) > 1
        a = self.where(c, site, 'statusfile', 's', '-s')
        if c['period']:
            a += ['-p', str(c['period'])]
        r = self.script(site, 'nbspstats', a, now=c['now'], tz=c['tz'])
        g = [x for x in r.out.strip().split('\n') if x.strip()]
        if r.code:
            return 'nbspstats: status %d: %r' % (r.code, (r.err + r.out)[-300:])
        if not L:
            return None
        e = [('total', 'per minute', 'last minute')]
        for k, i in (('products trasmitted', 6), ('products received', 7), ('products missed', 8), ('products rtx', 9), ('products rtx comp', 10), ('products rtx proc', 11), ('products rtx ign', 12),
                     ('frames received', 1), ('frames jumps', 3), ('bytes received', 5)):
            s = sum(l[i] for l in L)
            x = '%d' % L[-1][i]
            if i == 5:
                x += ' (%d KB/s)' % (L[-1][i] / ((c['period'] or 60) * 1000))
            e.append((k, '%.3e' % s, '%.3e' % (s / len(L)), x))
        t = sum(l[6] for l in L)
        e.append(('fraction missing', '%f' % (sum(l[8] for l in L) / t if t else 0)))
        z = lambda t: datetime.datetime.fromtimestamp(t, zoneinfo.ZoneInfo(c['tz'])).strftime('%Y-%m-%dT%H:%M%z')
        for k, l in (('start_time', L[0]), ('end_time', L[-1])):
            e.append((k, str(l[0]), z(l[0])))
        gl = [tuple(y.strip() for y in x.split('\t') if y.strip()) for x in g]
        gl = [tuple(y[:-3] + y[-2:] if k > 1 and x[0].endswith('_time') else y for k, y in enumerate(x)) for x in gl]
        if gl != e:
            d = [(x, y) for x, y in zip(gl, e) if x != y][:2] or [len(gl), len(e)]
            return 'nbspstats %s: %s (%r)' % (a, ['%s, expected %s' % (x if isinstance(x, tuple) else (x,)) for x in d], r.out[-400:])

    def plot(self, c, ctx, site, out):
        z = zoneinfo.ZoneInfo(c['tz'])
        a = []
        D = int(c['D']) if c['D'] else datetime.datetime.fromtimestamp(c['now'], z).day
        if c['D']:
            a += ['-D', c['D']]
        h = None
        if c['h']:
            a += ['-h', c['h']]
            h = datetime.datetime.fromtimestamp(c['now'] + int(c['h']) * 3600, z).hour if c['h'][0] == '-' else int(c['h'])
        if c['m']:
            a += ['-m']
        res = None
        if c['out']:
            a += ['-o', 'res']
            res = site.work + '/res'
            if 'b' in c['out']:
                os.makedirs(site.d + '/base')
                a += ['-b', site.d + '/base']
                res = site.d + '/base/res'
            if 'd' in c['out']:
                a += ['-d', 'sub']
                res = site.d + '/base/sub/res'
        a += self.where(c, site, 'statusfile', 's', None)
        rows = {}
        for l in c['lines']:
            d = datetime.datetime.fromtimestamp(l[0], z)
            if d.day != D or h is not None and d.hour < h:
                continue
            rows.setdefault(d.strftime('%H:%M' if c['m'] else '%H'), []).append(l)
        out.nontrivial = len(rows) > 1 or any(len(x) > 1 for x in rows.values())
        r = self.script(site, 'nbspstatplotdata', a, now=c['now'], tz=c['tz'])
        text = r.out
        if res:
            try:
                text = open(res).read()
            except OSError as e:
                return 'nbspstatplotdata %s: %s (%r)' % (a, e, (r.out + r.err)[-300:])
        g = [x.split() for x in text.strip().split('\n') if x.strip()]
        e = [[k] + [str(sum(l[i] for l in v)) for i in (1, 3, 6, 9, 8)] for k, v in sorted(rows.items())]
        if [x[:6] for x in g] != e or r.code:
            return 'nbspstatplotdata %s at %d %s: %s, expected %s (%s)' % (a, c['now'], c['tz'], g, e, (r.out + r.err)[-300:])
        for x in g:
            v = [l[5] for l in rows[x[0]]]
            # whole megabytes, of each minute or of the sum
            if not sum(y // 1000000 for y in v) <= float(x[6]) <= sum(v) / 1e6 + 1:
                return 'nbspstatplotdata %s: %s MB at %s, expected %s' % (a, x[6], x[0], sum(v) / 1e6)


CHECK = Check()
