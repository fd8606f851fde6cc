"""The schedules: hscheduler, mscheduler, nbspscheduler, scheduler and the periodic commands of the filters."""
import calendar, datetime, os, zoneinfo
from pbt import Outcome
from tclinst import Site

ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata', 'America/Puerto_Rico', 'Pacific/Auckland']
STEADY = ['UTC', 'Asia/Kolkata', 'America/Puerto_Rico']
FIELDS = {('h', 'H'): ('h', None), ('h', 'D'): ('dh', 'h'), ('h', 'W'): ('wh', 'h'),
          ('m', 'M'): ('m', None), ('m', 'H'): ('hm', 'm'), ('m', 'D'): ('dhm', 'hm'), ('m', 'W'): ('whm', 'hm')}
LEAD = {('h', 'H'): 'h', ('h', 'D'): 'd', ('h', 'W'): 'w', ('m', 'M'): 'm', ('m', 'H'): 'h', ('m', 'D'): 'd', ('m', 'W'): 'w'}
RANGE = {'h': (0, 23), 'm': (0, 59), 'd': (1, 31), 'w': (0, 6)}


def parts(t, zone):
    d = datetime.datetime.fromtimestamp(t, zoneinfo.ZoneInfo(zone))
    return {'h': d.hour, 'm': d.minute, 'd': d.day, 'w': (d.weekday() + 1) % 7}


def item(fields, v):
    return ''.join('%d' % v[f] if f == 'w' else '%02d' % v[f] for f in fields)


def spec_text(s):
    if s['bad'] is not None:
        return s['bad']
    if s['kind'] == 'all':
        t = s['letter']
    elif s['kind'] == 'list':
        t = s['letter'] + '=' + '|'.join(s['items'])
    else:
        t = s['letter'] + '|'.join(s['items']) + '/%d' % s['n']
    return t + ('g' if s['g'] else '')


def due(mod, s, t, tz):
    """True, False, or None when the specification is not one."""
    if s['bad'] is not None:
        return None
    p = parts(t, 'UTC' if s['g'] else tz)
    lst, sub = FIELDS[mod, s['letter']]
    if s['kind'] == 'all':
        return True
    if s['kind'] == 'list':
        return item(lst, p) in s['items']
    return p[LEAD[mod, s['letter']]] % s['n'] == 0 and (sub is None or item(sub, p) in s['items'])


def nxt(t, period, zone):
    if isinstance(period, int):
        return t + period
    d = datetime.datetime.fromtimestamp(t, zoneinfo.ZoneInfo(zone))
    if period == 'minutely':
        return t - d.second + 60
    if period == 'hourly':
        return t - d.second - d.minute * 60 + 3600
    return t - d.second - d.minute * 60 - d.hour * 3600 + 86400


def br(s):
    return '{' + s + '}'


class Check:
    pid = 'C30'
    title = 'Scheduled commands run exactly when their schedule says'
    parts = ['inst']
    drivers = []
    quick, thorough = 1400, 60000
    rule = ('a case counts as non-trivial when at least one entry was due and at least one was not (or, for the periodic commands, when a '
            'command ran more than once)')
    assumptions = ['the lists of a specification hold entries of the documented width', 'the intervals are at least 1']

    # ---- generation

    def time(self, src):
        y = src.int(2001, 2035)
        k = src.draw(4)
        if k == 0:       # around the ends of months and years
            t = calendar.timegm((y, src.int(1, 12), 1, 0, 0, 0)) + src.int(-50 * 3600, 50 * 3600)
        elif k == 1:     # around midnight and the hour
            t = calendar.timegm((y, src.int(1, 12), src.int(1, 28), src.pick([0, 0, 8, 9, 10, 12, 23]), 0, 0)) + src.int(-61, 61)
        elif k == 2:     # around the changes of the local time
            t = calendar.timegm((y, src.pick([3, 4, 9, 10, 11]), src.int(1, 28), 0, 0, 0)) + src.int(0, 86399)
        else:
            t = calendar.timegm((y, 1, 1, 0, 0, 0)) + src.draw(366 * 86400)
        return t

    def near(self, src, t, tz, g):
        """A value of the fields like that of the time t, or nearly."""
        p = dict(parts(t, 'UTC' if g else tz))
        if src.bool(0.12):
            p = dict(parts(t, tz if g else 'UTC'))
        k = src.draw(8)
        if k == 1:
            f = src.pick(['h', 'm', 'd', 'w'])
            lo, hi = RANGE[f]
            p[f] = lo + (p[f] - lo + src.pick([1, hi - lo])) % (hi - lo + 1)
        elif k == 2 and p['m'] < 24:
            p['h'], p['m'] = p['m'], p['h']
        elif k == 3:
            p['w'] = (p['w'] + 6) % 7
        elif k >= 6:
            p = {f: src.int(*RANGE[f]) for f in 'hmdw'}
        return p

    def spec(self, src, mod, t, tz):
        if src.bool(0.05):
            return dict(bad=src.pick(['X', 'h/2', '12', 'S=10', 'M/5' if mod == 'h' else 'm', 'd=01', '/3', '=03', 'w=523g']), letter='', kind='',
                        items=[], n=0, g=False)
        letter = src.pick(['H', 'D', 'W', 'H'] if mod == 'h' else ['M', 'H', 'D', 'W'])
        lst, sub = FIELDS[mod, letter]
        kind = src.wpick((1, 'all' if len(lst) == 1 else 'list'), (3, 'list'), (3, 'every'))
        g = src.bool(0.4)
        s = dict(bad=None, letter=letter, kind=kind, g=g, items=[], n=0)
        if kind == 'list':
            s['items'] = [item(lst, self.near(src, t, tz, g)) for _ in range(src.int(1, 4))]
        elif kind == 'every':
            s['n'] = src.wpick((5, src.int(1, 4)), (3, src.int(1, 12)), (1, src.int(1, 60)))
            if sub:
                s['items'] = [item(sub, self.near(src, t, tz, g)) for _ in range(src.int(1, 3))]
        return s

    def gen(self, src):
        kind = src.wpick((5, 'lib'), (3, 'sched'), (1, 'system'), (3, 'periodic'))
        c = dict(kind=kind, tz=src.pick(ZONES))
        if kind == 'lib':
            c['mod'] = src.pick('hm')
            c['q'] = []
            for _ in range(src.int(1, 24)):
                t = self.time(src)
                c['q'].append((t, self.spec(src, c['mod'], t, c['tz'])))
        elif kind in ('sched', 'system'):
            c['now'] = self.time(src)
            c['mod'] = src.pick('hm') if kind == 'sched' else 'm'
            c['opt'] = src.pick(['-' + c['mod'], '-' + c['mod'], '']) if c['mod'] == 'h' else '-m'
            c['f'] = src.bool(0.5)
            c['v'] = src.bool(0.3)
            c['vars'] = [(src.pick(['gdattim', 'x', 'level']), src.pick(['f00', '900', 'a=b', 'two words', 'z'])) for _ in range(src.int(0, 2))]
            names = ['etc', 'defaults', 'site']
            c['rcs'] = {}
            for n in names:
                if not src.bool(0.5):
                    continue
                c['rcs'][n] = self.entries(src, c)
            c['own'] = self.entries(src, c)
        else:
            c['tz'] = src.pick(STEADY)
            c['start'] = self.time(src)
            c['gate'] = src.wpick((4, None), (2, src.pick(['minutely', 'hourly', 'daily'])), (1, src.int(1, 200)))
            t = c['start']
            ev = []
            for i in range(src.int(1, 4)):
                t += src.wpick((2, 0), (2, src.int(0, 70)), (1, src.int(0, 4000)))
                ev.append(('reg', t, 'cmd%d' % i, src.wpick((2, 'minutely'), (2, 'hourly'), (2, 'daily'), (2, src.int(1, 300)), (1, src.int(1, 7300)), (1, None)),
                           src.bool(0.2)))
            for _ in range(src.int(1, 6)):
                k = src.draw(4)
                if k == 0:
                    for _ in range(src.int(1, 130)):
                        t += 1
                        ev.append(('poll', t))
                elif k == 1:
                    p = src.pick(['minutely', 'hourly', 'daily'])
                    b = nxt(t, p, c['tz'])
                    t = max(t, b - src.int(0, 4))
                    for _ in range(src.int(1, 70)):
                        ev.append(('poll', t))
                        t += 1
                elif k == 2:
                    for _ in range(src.int(1, 40)):
                        t += src.int(1, 90)
                        ev.append(('poll', t))
                else:
                    for _ in range(src.int(1, 20)):
                        t += src.int(1, 9000)
                        ev.append(('poll', t))
            c['ev'] = ev
        return c

    def entries(self, src, c):
        e = []
        for i in range(src.int(1, 7)):
            s = self.spec(src, c['mod'], c['now'], c['tz'])
            how = src.wpick((6, 'ok'), (1, 'fail'), (1, 'noise'), (1, 'missing'))
            args = [src.pick(['a', '-D', 'gdattim=f48', 'two words', '{x}', '$y', 'b[c', '"q"', 'stream_f00.gif', '\\d', ';', '#5', '*']) for _ in range(src.int(0, 3))]
            e.append(dict(spec=s, how=how, args=args, usevar=src.bool(0.3)))
        return e

    # ---- execution

    def lib(self, c, site):
        pk = c['mod'] + 'scheduler'
        prog = 'package require nbsp::%s\n' % pk
        for t, s in c['q']:
            prog += ('set env(NBSP_NOW) %d; if {[catch {::nbsp::%s::match_timespec %s} r]} {puts error} else {puts "is $r"}\n'
                     % (t, pk, br(spec_text(s))))
        r = site.tcl(prog, now=c['q'][0][0], tz=c['tz'])
        if r.crash or r.code != 0:
            return Outcome('the %s package cannot be used: %s' % (pk, r.crash or r.err[:300]))
        got = r.out.decode().split('\n')[:-1]
        n = [0, 0]
        for (t, s), g in zip(c['q'], got):
            d = due(c['mod'], s, t, c['tz'])
            want = 'error' if d is None else 'is %d' % d
            if g != want:
                return Outcome('%s at %s (%s): the %s says "%s", not "%s"' % (spec_text(s), t, datetime.datetime.fromtimestamp(
                    t, zoneinfo.ZoneInfo('UTC' if s['g'] else c['tz'])).strftime('%a %d %b %Y %H:%M'), pk, g, want))
            if d is not None:
                n[d] += 1
        if len(got) != len(c['q']):
            return Outcome('%d answers for %d specifications' % (len(got), len(c['q'])))
        o = Outcome(None, n[0] > 0 and n[1] > 0, ('lib', c['mod'], c['tz'], n[0], n[1]), ['package ' + c['mod']] + (['a specification in error'] if 'error' in got else []))
        o.evals = len(got)
        return o

    def rc(self, site, entries, tag, have):
        t = ''
        for i, e in enumerate(entries):
            words = []
            prog = {'ok': 'logit', 'fail': 'failit', 'noise': 'noiseit', 'missing': 'nosuchprogram'}[e['how']]
            words = [site.work + '/' + prog, '%s%d' % (tag, i)] + e['args']
            q = ' '.join('[list ' + ''.join('\\' + ch for ch in w) + ']' if False else self.quote(w) for w in words)
            if e['usevar'] and have:
                q += ' [::nbsp::util::get_var %s]' % have
            t += '# entry %d\nschedule %s %s\n' % (i, self.quote(spec_text(e['spec'])), q)
        return t

    def quote(self, w):
        return '"' + ''.join('\\' + ch if ch in '"\\$[]{}' else ch for ch in w) + '"'

    def expected(self, c, entries, tag, have, value):
        out = []
        for i, e in enumerate(entries):
            if due(c['mod'], e['spec'], c['now'], c['tz']) and e['how'] != 'missing':
                a = ['%s%d' % (tag, i)] + e['args'] + ([value] if e['usevar'] and have else [])
                out.append(''.join('<%s>' % x for x in a))
        return out

    def sched(self, c, site):
        log = site.work + '/log'
        body = 'for a in "$@"; do printf "<%%s>" "$a"; done >> %s\necho >> %s\n' % (log, log)
        for n, extra in (('logit', ''), ('failit', 'exit 3\n'), ('noiseit', 'echo noise >&2\necho out\n')):
            os.chmod(site.put('work/' + n, '#!/bin/sh\n' + body + extra), 0o755)
        system = c['kind'] == 'system'
        vals = dict(c['vars'])
        have = c['vars'][0][0] if c['vars'] and not system else None
        value = vals.get(have)
        name = 'scheduler.conf' if system else 'mine.rc'
        dirs = {'etc': 'etc', 'defaults': 'etc/defaults', 'site': 'etc/site'}
        for n, e in c['rcs'].items():
            if n == 'etc' and not system:
                continue
            site.put(dirs[n] + '/' + name, self.rc(site, e, n, have))
        found = [n for n in ('etc', 'defaults', 'site') if n in c['rcs'] and (system or n != 'etc')]
        args = []
        if system:
            used = (c['rcs'][found[-1]], found[-1]) if found else ([], '')
        else:
            site.put('work/' + name, self.rc(site, c['own'], 'own', have))
            args = [x for x in (c['opt'], '-f' if c['f'] else '', '-v' if c['v'] else '') if x]
            for k, v in c['vars']:
                args += ['-M', '%s=%s' % (k, v)]
            args += [name if not c['f'] else site.work + '/' + name]
            used = (c['rcs'][found[-1]], found[-1]) if found and not c['f'] else (c['own'], 'own')
        r = site.script('scheduler' if system else 'nbspscheduler', args, now=c['now'], tz=c['tz'])
        if r.crash:
            return Outcome('%s: %s' % (c['kind'], r.crash))
        got = open(log).read().split('\n')[:-1] if os.path.exists(log) else []
        want = self.expected(c, used[0], used[1], have, value)
        where = datetime.datetime.fromtimestamp(c['now'], zoneinfo.ZoneInfo(c['tz'])).strftime('%a %d %b %Y %H:%M %Z')
        if got != want:
            return Outcome('%s %s at %s with the schedule %s ran %s, not %s; stderr %s' % (
                'scheduler' if system else 'nbspscheduler', args, where, [spec_text(e['spec']) for e in used[0]], got, want, r.err[:200]))
        if c['kind'] == 'sched' and c['v']:
            n = r.out.decode().count('Executing ')
            m = sum(1 for e in used[0] if due(c['mod'], e['spec'], c['now'], c['tz']))
            if n != m:
                return Outcome('nbspscheduler -v announced %d commands of %d' % (n, m))
        ds = [due(c['mod'], e['spec'], c['now'], c['tz']) for e in used[0]]
        tags = [c['kind']] + (['the local schedule replaces the given one'] if not system and used[1] != 'own' else [])
        tags += ['after a failing command'] if any(e['how'] != 'ok' and d for e, d in zip(used[0], ds)) else []
        return Outcome(None, True in ds and False in ds, (c['kind'], c['mod'], tuple(ds), used[1]), tags)

    def periodic(self, c, site):
        prog = ('package require nbsp::periodic\n::nbsp::syslog::usesyslog 0\n'
                'proc note {n fail} {puts "$n [clock seconds]"; if {$fail} {error "failed on purpose"}}\n')
        if c['gate'] is not None:
            prog += '::nbsp::periodic::set_run_period %s\n' % c['gate']
        runs = []
        gp = c['gate'] if c['gate'] is not None else 'minutely'
        gate = nxt(c['start'], gp, c['tz'])
        cmds = []
        for e in c['ev']:
            t = e[1]
            prog += 'set env(NBSP_NOW) %d\n' % t
            if e[0] == 'reg':
                prog += 'proc %s {} {note %s %d}\n::nbsp::periodic::register %s %s\n' % (e[2], e[2], e[4], e[2], '' if e[3] is None else e[3])
                p = gp if e[3] is None else e[3]
                cmds.append([e[2], p, nxt(t, p, c['tz'])])
            else:
                prog += '::nbsp::periodic::run\n'
                if t < gate:
                    continue
                gate = nxt(t, gp, c['tz'])
                for k in cmds:
                    if t >= k[2]:
                        k[2] = nxt(t, k[1], c['tz'])
                        runs.append('%s %d' % (k[0], t))
        r = site.tcl(prog, now=c['start'], tz=c['tz'])
        if r.crash or r.code != 0:
            return Outcome('the periodic package failed: %s' % (r.crash or r.err[-300:]))
        got = r.out.decode().split('\n')[:-1]
        if got != runs:
            i = next((i for i, (a, b) in enumerate(zip(got, runs)) if a != b), min(len(got), len(runs)))
            return Outcome('commands %s, polled: run %d was %s, not %s (of %d and %d runs)' % (
                [(x[2], x[1], x[3]) for x in c['ev'] if x[0] == 'reg'], i, got[i:i + 1], runs[i:i + 1], len(got), len(runs)))
        names = [x.split()[0] for x in runs]
        return Outcome(None, any(names.count(n) > 1 for n in set(names)), ('periodic', len(runs)), ['periodic'] + (
            ['a failing periodic command'] if any(x[0] == 'reg' and x[4] for x in c['ev']) else []))

    def run(self, c, ctx):
        site = Site(ctx, ctx.dir())
        if c['kind'] == 'lib':
            return self.lib(c, site)
        if c['kind'] == 'periodic':
            return self.periodic(c, site)
        return self.sched(c, site)


CHECK = Check()
