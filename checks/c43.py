"""nbspfm35d, nbspuatocsv and uafilter: the levels and values of a sounding."""
import os, re, time
from pbt import Outcome
from tclinst import Site

T0 = 1100000000
# level -> (part, code, lowest and highest height, step)
LEVELS = [(1000, 'aa', '00', -380, 480, 1), (925, 'aa', '92', 300, 999, 1), (850, 'aa', '85', 1000, 1999, 1), (700, 'aa', '70', 2500, 3499, 1),
          (500, 'aa', '50', 4500, 6300, 10), (400, 'aa', '40', 6000, 8000, 10), (300, 'aa', '30', 7800, 10400, 10), (250, 'aa', '25', 8800, 11800, 10),
          (200, 'aa', '20', 10200, 13200, 10), (150, 'aa', '15', 12200, 15200, 10), (100, 'aa', '10', 14800, 17800, 10),
          (70, 'cc', '70', 16500, 19600, 10), (50, 'cc', '50', 18000, 21800, 10), (30, 'cc', '30', 21500, 25500, 10), (20, 'cc', '20', 24000, 28500, 10),
          (10, 'cc', '10', 28000, 33500, 10)]
TRAIL = [['31313', '45202', '81100'], ['51515', '10164', '00009', '10194', '04011'], ['41414', '47620'], ['52525', '12345']]


def code_height(level, h):
    if h < 0:
        return 500 - h
    return (h // 10 if level <= 500 else h) % 1000


def ddhhmm(t):
    return time.strftime('%d%H%M', time.gmtime(t))


class Check:
    pid = 'C43'
    title = 'A decoded sounding gives the levels and values that its report states'
    parts = ['inst']
    drivers = []
    quick, thorough = 600, 30000
    rule = ('a case counts as non-trivial when at least two reports of parts A or C were decoded, one of them with five levels or more and one with '
            'missing values, a tropopause or a maximum wind')
    assumptions = ['each level has its three groups (no winds left out by the indicator in the first group)', 'one tropopause and one maximum wind',
                   'wind speeds as reported, whatever their unit']

    # ---- generation: (group, value, ...)

    def temp(self, src):
        k = src.wpick((7, 'both'), (1, 'none'), (1, 't'))
        if k == 'none':
            return '/////', None, None
        v = src.wpick((3, src.int(0, 350)), (1, src.int(0, 20)), (1, src.int(0, 899)))
        t = -v if v % 2 else v
        if k == 't':
            return '%03d//' % v, t, None
        d = src.wpick((3, src.int(0, 50)), (2, src.int(56, 99)), (1, src.pick([0, 50, 56, 99])))
        return '%03d%02d' % (v, d), t, t - (d if d <= 50 else (d - 50) * 10)

    def wind(self, src, missing=True):
        if missing and src.bool(0.12):
            return '/////', None, None
        d = src.wpick((4, src.int(0, 72) * 5), (1, src.pick([0, 5, 360, 355, 100, 10, 90])))
        s = src.wpick((5, src.int(0, 99)), (2, src.int(100, 199)), (1, src.int(200, 299)), (1, src.int(300, 399)))
        return '%03d%02d' % (d + s // 100, s % 100), s, d

    def report(self, src):
        """groups (without part, time, station) and levels: [(name, [values])]"""
        part = src.wpick((5, 'aa'), (3, 'cc'), (1, 'bb'), (1, 'dd'))
        r = dict(part=part, day=src.int(1, 31), hour=src.pick([0, 12, 0, 12, 6, 18, src.int(0, 23)]), knots=src.bool(0.8), top=src.pick([1, 0, 7, 5]),
                 st='%05d' % src.wpick((3, src.pick([72520, 78526, 84629, 1028])), (1, src.int(1001, 99999))), per=src.int(3, 12), end=src.wpick((5, '='), (2, '')),
                 gap=src.wpick((6, ' '), (1, '  ')), bad=False)
        g, lv = [], []
        if part in ('bb', 'dd'):
            g = ['%02d%03d' % (11 * (i % 10), src.int(0, 999)) if i % 2 == 0 else self.temp(src)[0] for i in range(src.int(2, 20))]
        else:
            if part == 'aa':
                p = src.wpick((4, src.int(850, 1049)), (1, src.int(500, 850)), (1, src.pick([1000, 999, 1001, 100, 1049])))
                t, w = self.temp(src), self.wind(src)
                g += ['99%03d' % (p % 1000), t[0], w[0]]
                lv.append(('surface', [p, t, w]))
            last = src.int(1, 11)
            for lev, pt, code, lo, hi, step in [x for x in LEVELS if x[1] == part][:last]:
                if src.bool(0.08):
                    continue
                if src.bool(0.07):
                    h, hc = None, '///'
                else:
                    h = src.wpick((3, src.int(lo // step, hi // step) * step), (1, src.pick([lo, hi])))
                    if lo < 1000 * (lo // 1000 + 1) < hi and src.bool(0.15):
                        h = 1000 * (lo // 1000 + 1) + src.int(-3, 3) * step
                    if lo < 10000 < hi and src.bool(0.3):
                        h = 10000 + src.int(-5, 5) * step
                    hc = '%03d' % code_height(lev, h)
                t, w = self.temp(src), self.wind(src)
                g += [code + hc, t[0], w[0]]
                lv.append((str(lev), [h, t, w]))
            if part == 'cc' and not lv:
                t, w = self.temp(src), self.wind(src)
                g += ['70860', t[0], w[0]]
                lv.append(('70', [18600, t, w]))
            k = src.draw(4)
            if k == 1:
                g.append('88999')
            elif k > 1:
                p = src.int(100, 500) if part == 'aa' else src.int(150, 998)
                t, w = self.temp(src), self.wind(src)
                g += ['88%03d' % p, t[0], w[0]]
                lv.append(('tropopause', [p, t, w]))
            k = src.draw(4)
            if k == 1:
                g.append('77999')
            elif k > 1:
                p = src.int(100, 500) if part == 'aa' else src.int(100, 998)
                w = self.wind(src, False)
                g += ['77%03d' % p, w[0]]
                lv.append(('windmax', [p, w]))
                if src.bool(0.5):
                    g.append('4%02d%02d' % (src.int(0, 99), src.int(0, 99)))
            if k and src.bool(0.3):
                g += src.pick(TRAIL)
            elif k == 0 and g[-1] != '88999' and src.bool(0.1):
                g.pop()         # the last level is incomplete
                r['bad'] = True
        r['g'], r['lv'] = g, lv
        return r

    def product(self, src, now):
        p = dict(wmo='u%s%s%02d' % (src.pick('sklmef'), src.pick(['pm', 'us', 'dl', 'br']), src.int(1, 99)), station=src.pick(['kwbc', 'spim', 'edzw', 'tjsj', 'sbbr']),
                 t=now - src.int(0, 86400), crs=src.pick(['\r\r\n', '\r\n', '\n']), upper=src.bool(0.7), awips=src.bool(0.4), seqno=src.bool(0.5),
                 nnnn=src.bool(0.3), name=src.pick(['ttaa', 'ttcc', 'ttbb', 'ttdd', 'ttaa']))
        p['reports'] = [self.report(src) for _ in range(src.wpick((3, 1), (2, src.int(1, 4)), (1, src.int(4, 10))))]
        p['blank'] = [src.bool(0.2) for _ in p['reports']]
        return p

    def gen(self, src):
        now = T0 + src.int(0, 3 * 366 * 86400)
        c = dict(now=now, kind=src.wpick((4, 'dc'), (2, 'filter')))
        n = src.int(1, 3) if c['kind'] == 'dc' else src.int(1, 5)
        if c['kind'] == 'dc':
            c.update(mode=src.pick(['raw', 'd', 'd', 'd', 'c']), sep=src.pick(['', ',', ';', ',']), lsep=src.pick(['', '', '|', ' ']), na=src.pick(['', '', 'NA', '-99']), a=src.bool(0.2),
                     inp=src.pick(['file', 'stdin']), csv=src.bool(0.6), csv_h=src.bool(0.3), csv_inp=src.pick(['file', 'stdin', 'i']), csv_na=src.pick(['', 'NA', 'x']))
        else:
            c.update(daily=src.bool(0.8), hourly=src.bool(0.8), dir=src.pick(['fm35', 'x/y']), post=src.bool(0.4))
        c['products'] = []
        t = now
        for _ in range(n):
            t += src.wpick((3, src.int(0, 600)), (1, src.int(0, 40000)))
            p = self.product(src, t)
            p['now'] = t
            p['other'] = src.bool(0.12)
            p['missing'] = src.bool(0.05)
            c['products'].append(p)
        return c

    # ---- model

    def dd(self, r):
        return '%02d%02d%d' % (r['day'] + 50 * r['knots'], r['hour'], r['top'])

    def groups(self, r):
        return ['TT' + r['part'].upper(), self.dd(r), r['st']] + r['g']

    def join(self, r, g, j):
        return ' '.join(g[:3]) + (r['gap'] if g[3:] else '') + r['gap'].join(g[3:]) if j == 0 else r['gap'].join(g)

    def content(self, p):
        out = ['001 '] if p['seqno'] else []
        out.append('%s %s %s' % (p['wmo'].upper(), p['station'].upper(), ddhhmm(p['t'])))
        if p['awips']:
            out.append('MANSJU')
        for i, r in enumerate(p['reports']):
            g = self.groups(r)
            n = max(r['per'], 3)
            ls = [self.join(r, g[j:j + n], j) for j in range(0, len(g), n)]
            ls[-1] += r['end']
            out += ls
            if p['blank'][i]:
                out.append('')
        if p['nnnn']:
            out.append('NNNN')
        s = p['crs'].join(out) + p['crs']
        return (s if p['upper'] else s.lower()).encode()

    def raw(self, r):
        g = [x.lower() for x in self.groups(r)]
        n = max(r['per'], 3)
        return ' '.join(self.join(r, g[j:j + n], j) for j in range(0, len(g), n))

    def head(self, p, r):
        return [p['station'], ddhhmm(p['t']), r['st'], '%02d%02d' % (r['day'], r['hour'])]

    def levels(self, r, na):
        """[(name, values)] or None"""
        if r['part'] not in ('aa', 'cc') or r['bad']:
            return None
        f = lambda x: na if x is None else '%s%d.%d' % ('-' if x < 0 else '', abs(x) // 10, abs(x) % 10)
        i = lambda x: na if x is None else str(x)
        pr = lambda x: str(x) if r['part'] == 'aa' else f(x)
        out = []
        for name, v in r['lv']:
            if name == 'windmax':
                out.append([name, pr(v[0]), i(v[1][1]), i(v[1][2])])
            else:
                out.append([name, pr(v[0]) if name == 'tropopause' else i(v[0]), f(v[1][1]), f(v[1][2]), i(v[2][1]), i(v[2][2])])
        return out

    def rows(self, head, lv, na):
        out = []
        for l in lv:
            n = l[0]
            v = l[1:]
            if n == 'surface':
                v = ['0'] + v
            elif n == 'tropopause':
                v = [na] + v
            elif n == 'windmax':
                v = [na, v[0], na, na] + v[1:]
            else:
                v = [v[0], n] + v[1:]
            out.append(','.join(head[-2:] + [n] + v))
        return out

    # ---- execution

    def run(self, c, ctx):
        site = Site(ctx, ctx.dir())
        return self.run_dc(c, site) if c['kind'] == 'dc' else self.run_filter(c, site)

    def differ(self, what, got, want):
        if got == want:
            return None
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        return '%s: line %d is %s, not %s' % (what, i, got[i:i + 1], want[i:i + 1])

    def call(self, site, name, args, data, inp, fname='in'):
        if inp == 'stdin':
            r = site.script(name, args, stdin=data)
        elif inp == 'i':
            r = site.script(name, args + ['-i', data.decode()])
        else:
            r = site.script(name, args + [site.put('work/' + fname, data)])
        if r.crash or r.code != 0:
            return None, '%s %s of %r: %s' % (name, args, data[:300], r.crash or (r.err + r.out)[-300:])
        return r.out.decode('latin1').split('\n')[:-1], None

    def run_dc(self, c, site):
        data = b''.join(self.content(p) for p in c['products'])
        reps = [(p, r) for p in c['products'] for r in p['reports']]
        sep = c['sep'] or ','
        lsep = c['lsep'] or ' '
        if c['mode'] == 'c':
            lines = [sep.join(self.head(p, r) + [self.raw(r)]) for p, r in reps]
            data = '\n'.join(lines).encode() + b'\n'
        args = {'raw': [], 'd': ['-d'], 'c': ['-c']}[c['mode']]
        args += ['-s', c['sep']] if c['sep'] else []
        args += ['-l', c['lsep']] if c['lsep'] else []
        args += ['-n', c['na']] if c['na'] else []
        args += ['-a'] if c['a'] else []
        got, bad = self.call(site, 'nbspfm35d', args, data, c['inp'])
        if bad:
            return Outcome(bad)
        want, recs = [], []
        for p, r in reps:
            if c['mode'] == 'raw':
                want.append(sep.join(self.head(p, r) + [self.raw(r)]) if c['sep'] else self.raw(r))
                continue
            lv = self.levels(r, c['na'])
            if lv is None:
                continue
            h = self.head(p, r)
            want.append(lsep.join([sep.join(h)] + ([sep.join(h[2:])] if c['a'] else []) + [sep.join(x) for x in lv]))
            recs.append((h, lv))
        bad = self.differ('nbspfm35d %s of %r' % (args, data[:600]), got, want)
        if bad:
            return Outcome(bad)
        if c['csv'] and recs and not c['a']:
            na = c['csv_na']
            a = (['-h'] if c['csv_h'] else []) + (['-l', c['lsep']] if c['lsep'] else []) + (['-n', na] if na else []) + (['-s', c['sep']] if c['sep'] else [])
            one = c['csv_inp'] == 'i'
            rows = ['# station,time,level,height_m,p_mb,temp_c,dewp_c,wspeed_kt,wdir'] if c['csv_h'] else []
            for h, lv in recs[:1] if one else recs:
                rows += self.rows(h, lv, na)
            inp = want[0].encode() if one else '\n'.join(want).encode() + b'\n'
            got, bad = self.call(site, 'nbspuatocsv', a, inp, c['csv_inp'], 'dc')
            bad = bad or self.differ('nbspuatocsv %s of %r' % (a, inp[:400]), got, rows)
            if bad:
                return Outcome(bad)
        return self.outcome(c, [r for _, r in reps], [c['mode']])

    def outcome(self, c, reps, tags):
        dec = [r for r in reps if r['part'] in ('aa', 'cc') and not r['bad']]
        special = [r for r in dec if any('/' in g for g in r['g']) or r['lv'][-1][0] in ('tropopause', 'windmax')]
        o = Outcome(None, len(dec) > 1 and any(len(r['lv']) > 4 for r in dec) and bool(special), (tags[0], tuple((r['part'], tuple(r['g'])) for r in reps)), tags)
        o.evals = len(reps)
        return o

    def run_filter(self, c, site):
        post = site.work + '/post'
        site.put('etc/uafilter.conf', 'set uafilter(fm35_daily_enable) %d\nset uafilter(fm35_hourly_enable) %d\nset uafilter(fm35_dir) "%s"\nset uafilter(postfilter) "%s"\n'
                 % (c['daily'], c['hourly'], c['dir'], post if c['post'] else ''))
        if c['post']:
            os.chmod(site.put('work/post', '#!/bin/sh\ncat >> %s.log\n' % post), 0o755)
        os.makedirs(site.var + '/noaaport/data/upperair')
        lines, m, posts, reps = [], {}, [], []
        for i, p in enumerate(c['products']):
            fname = '%s_%s%s' % (p['station'], p['wmo'], '' if p['other'] else '+' + p['name'])
            f = 'spool/%s/%s.%s_%d' % (p['station'], fname, ddhhmm(p['t']), i + 1)
            if not p['missing']:
                site.put(f, self.content(p))
            lines += ['@now %d' % p['now'], '%d 2 1 0 1 %s %s/%s' % (i + 1, fname, site.d, f)]
            if p['missing'] or p['other']:
                continue
            day, hour = time.strftime('%Y%m%d', time.gmtime(p['t'])), time.strftime('%Y%m%d%H', time.gmtime(p['t']))
            for r in p['reports']:
                reps.append(r)
                h = self.head(p, r)
                raw = ','.join(h + [self.raw(r)])
                posts.append(raw)
                if c['daily']:
                    m.setdefault('%s/%s/daily/%s_%s.fm35' % (c['dir'], day, r['st'], day), []).append(raw)
                if c['hourly']:
                    m.setdefault('%s/%s/hourly/%s.fm35' % (c['dir'], day, hour), []).append(raw)
                lv = self.levels(r, '')
                if lv:
                    m.setdefault('csv/%s/%s_%s.csv' % (day, r['st'], day), []).extend(self.rows(h, lv, ''))
        r = site.script('uafilter', [], stdin=('\n'.join(lines) + '\n\n').encode(), now=c['now'])
        if r.crash or r.code != 0:
            return Outcome('uafilter: %s' % (r.crash or r.err[-300:]))
        got = {k: v for k, v in site.files('var/noaaport/data/upperair').items() if not isinstance(v, tuple)}
        for k in sorted(set(m) | set(got)):
            if k not in got:
                return Outcome('there is no %s; it should have %s' % (k, m[k][:3]))
            if k not in m:
                return Outcome('%s was written: %r' % (k, got[k][:200]))
            bad = self.differ(k, got[k].decode('latin1').split('\n')[:-1], m[k])
            if bad:
                return Outcome(bad)
        if c['post']:
            plog = open(post + '.log').read().split('\n')[:-1] if os.path.exists(post + '.log') else []
            bad = self.differ('what the post filter got', plog, posts)
            if bad:
                return Outcome(bad)
        return self.outcome(c, reps, ['uafilter'] + (['post'] if c['post'] else []))


CHECK = Check()
