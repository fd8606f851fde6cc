"""metarfilter and nbspmtrcsv: the reports of the collectives reach the files of their stations."""
import calendar, os, re, time
from pbt import Outcome
from tclinst import Site

T0 = 1100000000
STATIONS = ['KABC', 'KDEF', 'KJFK', 'TJSJ', 'K1G4', 'EGLL', 'kxyz', 'CWAM', '2B5A', 'KABD']
WORDS = ['AUTO', '18012KT', '00000KT', 'VRB03G15KT', '10SM', '1/2SM', 'R04R/3000V6000FT', '-RA', 'TSRA', 'FEW015', 'OVC100', 'CLR', '17/12', 'M04/M10',
         'A2992', 'Q1013', 'RMK', 'AO2', 'SLP125', 'T01720117', 'NOSIG', '$', 'COR', 'PK', 'WND', '[x', '{', '"q"', '\\', '-', '/////', '#', '%d',
         'TSNO', 'A2992;', 'end.', 'BECMG', '9999', '12345', '=A', 'x=y']
STARTED = re.compile(r'^[A-Za-z0-9]{4} \d{6}|^(METAR|SPECI)')


def ddhhmm(t):
    return time.strftime('%d%H%M', time.gmtime(t))


class Check:
    pid = 'C32'
    title = 'Each METAR report reaches the files of its station intact, newest first'
    parts = ['inst']
    drivers = []
    quick, thorough = 800, 30000
    rule = ('a case counts as non-trivial when at least two reports of one station went to the files of a collective and another report to none, or '
            '(nbspmtrcsv alone) when a product had at least two reports, one of them of several lines')
    assumptions = ['ASCII reports without the separator', 'the header times lie within ten days of the present time']

    # ---- generation

    def text(self, src, st, t, sep):
        n = src.wpick((4, src.int(1, 6)), (2, src.int(6, 25)))
        ws = [w for w in (src.pick(WORDS) for _ in range(n)) if sep not in w]
        ws = ws or ['NIL']
        lines = [[st, ddhhmm(t) + src.pick(['Z', 'Z', '']), ws.pop(0)]]
        for w in ws:
            if len(lines[-1]) > 2 and src.bool(0.2):
                lines.append([])
            lines[-1].append(w)
        out = []
        for i, l in enumerate(lines):
            s = ' '.join(l)
            if i and STARTED.match(s):
                s = 'x' + s
            out.append(s)
        if len(out) > 1 and out[-1].strip() == '':
            out.pop()
        # '=' within the report would end it
        return [o.rstrip('=') if i < len(out) - 1 else o.rstrip('=') for i, o in enumerate(out)]

    def report(self, src, now, sts, sep, known):
        if known and src.bool(0.3):
            r = dict(src.pick(known))
            r['end'] = self.end(src)
            return r
        st = src.pick(sts)
        lines = self.text(src, st, now - src.int(0, 7200), sep)
        r = dict(st=st, key=src.wpick((4, ''), (3, 'METAR '), (1, 'SPECI '), (1, 'METAR\n'), (1, 'SPECI\n')), lines=lines, end=self.end(src),
                 indent=src.wpick((3, ''), (1, '     ')), pad=src.wpick((6, ''), (1, '  ')))
        known.append(r)
        return r

    def end(self, src):
        """How a report ends: with =, with = after a blank or on its own line, a blank line or the next report."""
        return src.wpick((5, '='), (1, ' ='), (1, '\n='), (2, ''), (1, '\n\x01'))

    def product(self, src, now, sts, sep, known):
        t = now + src.wpick((5, -src.int(0, 5400)), (1, src.int(-9 * 86400, 9 * 86400)))
        p = dict(wmoid=src.pick(['saus', 'spus', 'sapa', 'sauk']) + '%02d' % src.int(1, 99), station=src.pick(['kwbc', 'tjsj', 'egrr']), t=t,
                 head=src.wpick((4, ''), (2, 'METAR'), (1, 'SPECI')), reports=[self.report(src, now, sts, sep, known) for _ in range(src.wpick((1, 0), (6, src.int(1, 5))))],
                 nl=src.pick(['\r\r\n', '\r\r\n', '\n']), ccb=src.bool(0.7), awips=src.pick(['mtrsju', '', 'mtrabc']), other=src.bool(0.1),
                 missing=src.bool(0.03), now=now)
        # a keyword on its own line would continue a report that is still open
        for i, r in enumerate(p['reports']):
            if i and r['key'].endswith('\n') and p['reports'][i - 1]['end'] == '':
                p['reports'][i] = dict(r, key='')
        return p

    def gen(self, src):
        now = T0 + src.draw(900 * 86400)
        if src.bool(0.3):
            sep = src.pick([',', ';', '', ':'])
            return dict(kind='csv', sep=sep, now=now, how=src.pick(['file', '-']), products=[self.product(src, now, STATIONS, sep or ',', [])])
        sep = src.wpick((3, ','), (1, ';'))
        pats = []
        for _ in range(src.int(1, 4)):
            ss = [src.pick(STATIONS) for _ in range(src.int(1, 4))]
            pats.append(src.pick(['|'.join(s.lower() for s in ss), '|'.join(ss), '^' + ss[0][:2].lower(), ss[0][1:].lower() + '$', '', '.']))
        c = dict(kind='filter', sep=sep, now=now, pats=pats, rawn=src.wpick((2, 60), (3, src.int(1, 4))), mwn=src.wpick((2, 60), (3, src.int(1, 4))),
                 mw=not src.bool(0.1), daily=not src.bool(0.15), hourly=not src.bool(0.15), arch=src.bool(0.25), arch_daily=src.bool(0.8),
                 arch_hourly=src.bool(0.8), report=src.bool(0.1), post=src.bool(0.15), products=[])
        sts = [src.pick(STATIONS) for _ in range(src.int(1, 5))]
        known = []
        for _ in range(src.wpick((3, src.int(1, 4)), (3, src.int(3, 9)))):
            c['products'].append(self.product(src, now, sts, sep, known))
            now += src.wpick((3, 0), (3, src.int(1, 600)), (1, src.int(600, 90000)))
        return c

    # ---- model

    def content(self, p):
        nl = p['nl']
        out = []
        if p['head']:
            out.append(p['head'])
        for r in p['reports']:
            l = [r['key'].replace('\n', nl) + r['lines'][0]] + [r['indent'] + x for x in r['lines'][1:]]
            s = nl.join(x + r['pad'] for x in l[:-1])
            s += (nl if l[:-1] else '') + l[-1]
            out.append(s + r['end'].replace('\n', nl))
        body = '%s%s %s %s%s' % (nl, p['wmoid'].upper(), p['station'].upper(), ddhhmm(p['t']), nl)
        if p['awips']:
            body += p['awips'].upper() + nl
        data = (body + nl.join(out) + nl).encode()
        return (b'\x01\x0c' + bytes(20) + b'42' if p['ccb'] else b'') + data

    def records(self, p):
        """(station, type, text) of the reports in order"""
        typ = {'': '', 'METAR': 'M', 'SPECI': 'S'}[p['head']]
        out = []
        for r in p['reports']:
            typ = {'': typ, 'METAR': 'M', 'SPECI': 'S'}[r['key'].strip()]
            out.append((r['st'], typ, ' '.join(x.strip() for x in r['lines'])))
        return out

    def csv(self, p, rec, sep):
        st, typ, text = rec
        if not sep:
            return text
        tm = text.split()[1]
        return sep.join([st, p['station'].upper(), p['wmoid'][2:4].upper(), str(p['now']), ddhhmm(p['t']), tm, tm[:2], tm[2:4], typ, text])

    # ---- execution

    def run(self, c, ctx):
        site = Site(ctx, ctx.dir())
        return self.run_csv(c, site) if c['kind'] == 'csv' else self.run_filter(c, site)

    def run_csv(self, c, site):
        p = c['products'][0]
        data = self.content(p)
        f = site.put('work/product', data)
        r = site.script('nbspmtrcsv', ([c['sep']] if c['sep'] else []) + [f if c['how'] == 'file' else '-'], stdin=data if c['how'] == '-' else b'', now=c['now'])
        want = [self.csv(p, x, c['sep']) for x in self.records(p)]
        got = r.out.decode('latin1').split('\n')[:-1]
        if r.crash or r.code != 0:
            return Outcome('nbspmtrcsv: %s' % (r.crash or r.err[-300:]))
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            return Outcome('nbspmtrcsv: record %d of %r is %r, not %r' % (i, data, got[i:i + 1], want[i:i + 1]))
        return Outcome(None, len(want) > 1 and any(len(x['lines']) > 1 for x in p['reports']), ('csv', c['sep'], p['nl'], tuple(len(x) for x in want)), ['nbspmtrcsv'])

    def run_filter(self, c, site):
        names = ['c%d' % i for i in range(len(c['pats']))]
        site.put('etc/metarfilter-st.conf', ''.join('set collective(%s) "%s"\n' % (n, p.replace('$', '\\$')) for n, p in zip(names, c['pats'])))
        post = site.work + '/post'
        site.put('etc/metarfilter.conf', 'set metarfilter(rawfcount) %d\nset metarfilter(mwfcount) %d\nset metarfilter(mwsupport) %d\n'
                 'set metarfilter(ws_daily_enable) %d\nset metarfilter(ws_hourly_enable) %d\nset metarfilter(FS) "%s"\nset metarfilter(reportenable) %d\n'
                 'set metarfilter(postfilter) "%s"\n' % (c['rawn'], c['mwn'], c['mw'], c['daily'], c['hourly'], c['sep'], c['report'], post if c['post'] else ''))
        site.put('etc/archive.conf', 'set archive(metar,enable) %d\nset archive(metar,daily_enable) %d\nset archive(metar,hourly_enable) %d\n'
                 % (c['arch'], c['arch_daily'], c['arch_hourly']))
        if c['post']:
            os.chmod(site.put('work/post', '#!/bin/sh\nprintf "%%s\\n" "$1" >> %s.log\n' % post), 0o755)
        os.makedirs(site.var + '/noaaport/data/metar')
        os.makedirs(site.var + '/noaaport/archive/data/metar')
        lines = []
        m = {}
        posts = []
        per = {}
        none = 0

        def latest(f, text, count=1, once=True):
            l = m.setdefault(f, [])
            if not once or l[:1] != [text]:
                m[f] = ([text] + l)[:count] if l else [text]

        for i, p in enumerate(c['products']):
            fname = '%s_%s%s' % (p['station'], ('x' if p['other'] else 's') + p['wmoid'][1:], '-' + p['awips'] if p['awips'] else '')
            f = 'spool/%s/%s.%s_%d' % (p['station'], fname, ddhhmm(p['t']), i + 1)
            if not p['missing']:
                site.put(f, self.content(p))
            lines += ['@now %d' % p['now'], '%d 2 1 0 1 %s %s/%s' % (i + 1, fname, site.d, f)]
            if p['missing'] or p['other']:
                continue
            day, hour = time.strftime('%Y%m%d', time.gmtime(p['t'])), time.strftime('%Y%m%d%H', time.gmtime(p['t']))
            for rec in self.records(p):
                st, typ, text = rec
                csv = self.csv(p, rec, c['sep'])
                s = st.lower()
                cs = [n for n, x in zip(names, c['pats']) if x and (re.search(x, st.upper()) or re.search(x, s) or re.search(x, st))]
                for n in cs:
                    per[n, s] = per.get((n, s), 0) + 1
                    m['data/metar/cl/%s/%s.csv' % (n, s)] = [csv]
                    latest('data/metar/st/%s/%s.csv' % (n, s), csv, c['rawn'])
                    if c['mw']:
                        latest('data/metar/metarweather/%s/%s.metar' % (n, s), text, c['mwn'])
                        f = 'data/metar/metarweather/%s/%s.metar' % (n, n)
                        m[f] = [text] + [x for x in m.get(f, ()) if x[:4].lower() != s]
                    if c['daily']:
                        m.setdefault('data/metar/weatherscope/%s/daily/%s/%s_%s.metar' % (day, n, s, day), []).append(text)
                    if c['hourly']:
                        m.setdefault('data/metar/weatherscope/%s/hourly/%s.metar' % (day, hour), []).append(text)
                    if c['arch'] and c['arch_daily']:
                        m.setdefault('archive/data/metar/%s/daily/%s/%s_%s.metar' % (day, n, s, day), []).append(text)
                    if c['arch'] and c['arch_hourly']:
                        m.setdefault('archive/data/metar/%s/hourly/%s/%s.metar' % (day, n, hour), []).append(text)
                    if c['report']:
                        m['data/metar/txt/%s/%s.txt' % (n, s)] = (f_path(site, i, p, fname), text)
                none += not cs
                if cs and c['post']:
                    posts.append(text)
        r = site.script('metarfilter', [], stdin=('\n'.join(lines) + '\n\n').encode(), now=c['now'])
        if r.crash or r.code != 0:
            return Outcome('metarfilter: %s' % (r.crash or r.err[-300:]))
        got = {k: v for k, v in site.files('var/noaaport').items() if not isinstance(v, tuple) and not k.startswith('nbsp/')}
        for k in sorted(set(m) | set(got)):
            if k not in got:
                if isinstance(m[k], tuple):
                    continue        # nbspmtrd could not decode it
                return Outcome('there is no %s; it should have %s' % (k, m[k][:3]))
            g = got[k].decode('latin1')
            if k not in m:
                return Outcome('%s was written: %r' % (k, g[:200]))
            if isinstance(m[k], tuple):
                if not g.startswith('File: %s\n' % m[k][0]):
                    return Outcome('the report %s is not that of %s: %r' % (k, m[k][0], g[:200]))
                continue
            if g.rstrip('\n').split('\n') != m[k]:
                return Outcome('%s has %r, not %r' % (k, g.split('\n')[:5], m[k][:5]))
        plog = open(post + '.log').read().split('\n')[:-1] if os.path.exists(post + '.log') else []
        if plog != posts:
            return Outcome('the post filter got %s, not %s' % (plog[:4], posts[:4]))
        tags = ['metarfilter'] + [k for k in ('arch', 'report', 'post') if c[k]]
        tags += ['a list at its limit'] if any(len(v) == c['mwn'] for k, v in m.items() if '/metarweather/' in k) else []
        return Outcome(None, any(v > 1 for v in per.values()) and none > 0, (len(m), tuple(sorted(per.items())), none, c['mwn']), tags)


def f_path(site, i, p, fname):
    return '%s/spool/%s/%s.%s_%d' % (site.d, p['station'], fname, ddhhmm(p['t']), i + 1)


CHECK = Check()
