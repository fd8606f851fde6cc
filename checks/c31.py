"""nbspcleanup and nbspinvrm: what a cleanup run deletes and what it leaves."""
import calendar, fnmatch, os, re
import c30
from pbt import Outcome
from tclinst import Site

TOP = 'data'


class Tree:
    """path relative to the site's directory -> ('d', mtime) or ('f', mtime, content)"""

    def __init__(self, n):
        self.n = dict(n)
        self.touched = set()

    def under(self, d):
        return sorted(p for p in self.n if p.startswith(d + '/'))

    def kids(self, d, kind):
        return sorted(p for p in self.under(d) if '/' not in p[len(d) + 1:] and self.n[p][0] == kind)

    def isdir(self, d):
        return self.n.get(d, ('',))[0] == 'd'

    def isfile(self, p):
        return self.n.get(p, ('',))[0] == 'f'

    def rm(self, p):
        self.n.pop(p, None)
        self.touched.add(p.rsplit('/', 1)[0])

    def settle(self, now):
        """What was removed from a directory changed its modification time."""
        for d in self.touched:
            if self.isdir(d):
                self.n[d] = ('d', now)
        self.touched = set()

    def rmtree(self, d):
        for p in self.under(d):
            self.rm(p)
        self.rm(d)


class Expr:
    """A find expression the model knows: age tests, -name and -type f."""

    def __init__(self, e):
        self.e = e

    def text(self):
        o = []
        for k, v in self.e:
            o.append({'mmin': '-mmin +%s', 'mtime': '-mtime +%s', 'name': '-name %s', 'type': '-type %s'}[k] % v)
        return ' '.join(o)

    def match(self, name, node, now):
        for k, v in self.e:
            age = now - node[1]
            if k == 'mmin' and not age > 60 * v:
                return False
            if k == 'mtime' and not age // 86400 > v:
                return False
            if k == 'name' and not fnmatch.fnmatchcase(name, v):
                return False
            if k == 'type' and node[0] != v:
                return False
        return True


def base(p):
    return p.rsplit('/', 1)[-1]


class Check:
    pid = 'C31'
    title = 'A cleanup deletes the files its rules select and nothing else'
    parts = ['inst']
    drivers = []
    quick, thorough = 2400, 80000
    rule = 'a case counts as non-trivial when the run had something to delete and something to leave in the same place'
    assumptions = ['the file system keeps the modification times', 'find expressions made of -mmin, -mtime, -name and -type f',
                   'an inventory names files of one directory']

    # ---- generation

    def names(self, src, n):
        pool = ['20090223', '20090224', '20090301', '200902231855.txt', '200902231901.txt', '20090224_0001.nids', 'latest', 'n0r.list', 'a', 'b', 'Z9',
                '_x', 'kmob', 'sdus-54', '.hidden', '10', '9', 'img.png', 'tjua', 'nexrad', 'sat', 'hurricane', 'a b', 'x[1]', '$x', '-c']
        out = []
        for _ in range(n):
            out.append(src.pick(pool) if src.bool(0.85) else '%d' % src.int(0, 300))
        return sorted(set(out))

    def age(self, src, marks):
        """An age in seconds that is clear of the marks."""
        if marks and src.bool(0.75):
            a = max(0, src.pick(marks) + src.pick([-1, 1]) * src.wpick((3, src.int(150, 3000)), (2, src.int(150, 86000)), (1, 43200)))
        else:
            a = src.int(0, 10 * 86400)
        for m in marks:
            if abs(a - m) < 130:
                a = m + 150
        return a

    def expr(self, src):
        e = []
        if src.bool(0.3):
            e.append(('type', 'f'))
        e.append(src.pick([('mmin', src.pick([30, 120, 240, 720, 1380])), ('mtime', src.int(0, 7))]))
        if src.bool(0.3):
            e.append(('name', src.pick(['2009*', '*.txt', '*x*', 'n0r.list', '?', '*'])))
        return e

    def gen(self, src):
        if src.bool(0.3):
            return self.gen_inv(src)
        now = calendar.timegm((src.int(2002, 2019), src.int(1, 12), src.int(1, 28), src.int(0, 23), src.int(0, 59), src.int(0, 59)))
        c = dict(kind='cleanup', now=now, tz=src.pick(['UTC', 'America/Puerto_Rico']), f=src.bool(0.3), log=src.bool(0.2), rules={})
        dirs = ['data/A', 'data/A/s1', 'data/B', 'data/inv', 'data/C', 'data/none', 'data/inv/q']
        marks = set()
        for where in ('etc', 'etc/defaults', 'etc/site', 'work'):
            if not src.bool(0.75 if where in ('etc', 'work') else 0.4):
                continue
            lines = []
            for _ in range(src.int(1, 4)):
                spec = self.spec(src, now, c['tz'])
                d = src.pick(dirs)
                k = src.wpick((6, 'time'), (5, 'count'), (6 if 'inv' in d else 2, 'inv'), (1, 'bad'))
                r = dict(spec=spec, dir=d, kind=k, excl=None)
                if k in ('time', 'inv'):
                    r['expr'] = self.expr(src)
                    if k == 'inv':
                        r['expr'] = [x for x in r['expr'] if x[0] != 'type']
                    for a, v in r['expr']:
                        if a == 'mmin':
                            marks.add(60 * v)
                        if a == 'mtime':
                            marks |= {86400 * v, 86400 * (v + 1)}
                elif k == 'count':
                    r['n'] = src.wpick((3, src.int(0, 3)), (1, src.int(0, 8)))
                    r['d'] = src.bool(0.4)
                    r['e'] = src.pick([None, None, 'latest|.+\\.list', '^2009', 'a'])
                else:
                    r['text'] = src.pick(['H', 'H:', 'H:%s:a:b:-mmin', ''])
                if src.bool(0.3) and k != 'bad':
                    r['excl'] = src.pick(['nexrad|sat|hurricane', '^s1$', 'x', '^2009', '.'])
                lines.append(r)
                if src.bool(0.2):
                    lines.append(dict(kind='comment', text=src.pick(['# H:data/A: -mmin +0', '', '   ', '#'])))
            c['rules'][where] = lines
        marks = sorted(marks)
        t = {}

        def fill(d, depth, inv):
            t[d] = ('d', now)
            for n in self.names(src, src.int(0, 7)):
                p = d + '/' + n
                if p in t:
                    continue
                if depth and src.bool(0.3):
                    fill(p, depth - 1, False)
                    if inv:
                        t[p] = ('d', now - self.age(src, marks))
                    elif not any(x.startswith(p + '/') for x in t) and src.bool(0.5):
                        t[p] = ('d', now - self.age(src, marks))
                else:
                    t[p] = ('f', now - self.age(src, marks), None)
        t[TOP] = ('d', now)
        for d in ('data/A', 'data/A/s1', 'data/B', 'data/C', 'data/keep'):
            if d == 'data/keep' or src.bool(0.85):
                t.setdefault(d.rsplit('/', 1)[0], ('d', now))
                fill(d, 2, False)
        if src.bool(0.7):
            t['data/inv'] = ('d', now)
            for i in range(src.int(0, 3)):
                p = 'data/inv/' + src.pick(['q', '2009022318', '2009022319', '2009022320'])
                t[p] = ('d', now - self.age(src, marks))
                for j in range(src.int(0, 3)):
                    t['%s/inv%d' % (p, j)] = ('f', now - self.age(src, marks), self.inv(src, t))
            if src.bool(0.4):
                t['data/inv/loose'] = ('f', now - self.age(src, marks), self.inv(src, t))
        c['tree'] = sorted(t.items())
        return c

    def spec(self, src, now, tz):
        if src.bool(0.6):
            return dict(bad=None, letter='H', kind='all', g=False, items=[], n=0)
        return c30.CHECK.spec(src, 'h', now, tz)

    def inv(self, src, t):
        """The list of an inventory: (directory, [(name, full path?)], ending)"""
        ds = [p for p, n in t.items() if n[0] == 'd' and not p.startswith('data/inv')]
        d = src.pick(ds + ['data/gone']) if ds else 'data/gone'
        have = [base(p) for p in t if p.rsplit('/', 1)[0] == d and t[p][0] == 'f']
        ls = []
        for i in range(src.int(0, 5)):
            n = src.pick(have) if have and src.bool(0.75) else src.pick(['missing', 'other.txt', 'a'])
            ls.append((n, i == 0 or src.bool(0.6)))
        return (d, ls, src.wpick((6, '\n'), (2, ''), (1, '\n\0\0\0'), (1, '\n\n')))

    def gen_inv(self, src):
        now = 1100000000
        t = {TOP: ('d', now), 'data/keep': ('d', now), 'work': ('d', now)}
        for d in ('data/A', 'data/B', 'data/A/s1'):
            t[d] = ('d', now)
            for n in self.names(src, src.int(0, 5)):
                t.setdefault(d + '/' + n, ('f', now, None))
        c = dict(kind='inv', now=now, opts=[x for x in ('-s', '-v', '-t') if src.bool(0.35)], args=[])
        for i in range(src.int(1, 3)):
            d = src.pick(['data/inv', 'work', 'data/A', 'work/sub'])
            t[d] = ('d', now)
            p = '%s/inv%d' % (d, i)
            t[p] = ('f', now, self.inv(src, t))
            c['args'].append((p, src.pick(['abs', 'rel'])))
            if src.bool(0.3):
                t['work/inv%d' % i] = t.get('work/inv%d' % i, ('f', now, None))
        if src.bool(0.15):
            c['args'].insert(src.draw(len(c['args']) + 1), ('data/noinv', 'abs'))
        c['tree'] = sorted(t.items())
        return c

    # ---- model

    def inv_run(self, tr, p, cont, test=False):
        d, ls, _ = cont
        if ls and not tr.isdir(d):
            ls = []
        if test:
            return
        for n, _f in ls:
            if tr.isfile(d + '/' + n):
                self.mark(tr, d + '/' + n)
                tr.rm(d + '/' + n)
        tr.rm(p)
        self.deleted.add(p)

    def mark(self, tr, p):
        self.deleted.add(p)

    def rm(self, tr, p):
        self.deleted.add(p)
        tr.rm(p)

    def by_time(self, tr, d, r, now):
        x = Expr(r['expr'])
        for p in sorted(tr.under(d), reverse=True):
            n = tr.n[p]
            if x.match(base(p), n, now) and (n[0] == 'f' or not tr.under(p)):
                self.rm(tr, p)

    def by_count(self, tr, d, r):
        def go(d):
            dirs = [p for p in tr.kids(d, 'd') if not base(p).startswith('.')]
            for kind in 'fd':
                l = [p for p in tr.kids(d, kind) if not base(p).startswith('.')]
                if kind == 'd' and not r['d']:
                    continue
                for p in l[:max(0, len(l) - r['n'])]:
                    if r['e'] is None or not re.search(r['e'], base(p)):
                        if kind == 'f':
                            self.rm(tr, p)
                        else:
                            self.deleted |= set(tr.under(p)) | {p}
                            tr.rmtree(p)
            if not r['d']:
                for p in dirs:
                    go(p)
        go(d)

    def by_inv(self, tr, d, r, now):
        x = Expr(r['expr'])
        sel = [p for p in tr.under(d) if '/' not in p[len(d) + 1:] and x.match(base(p), tr.n[p], now)]
        for p in [p for p in sel if tr.n[p][0] == 'f'] + [q for s in sel if tr.n[s][0] == 'd' for q in tr.under(s) if tr.n[q][0] == 'f']:
            if p in tr.n:
                c = tr.n[p][2]
                if c is None:       # not an inventory: its text is its own name, of no file
                    self.rm(tr, p)
                else:
                    self.inv_run(tr, p, c)
        for s in sel:
            if tr.isdir(s) and not tr.under(s):
                self.rm(tr, s)

    def model(self, c, tr):
        sched = {}
        for w in (('work',) if c['f'] else ('etc', 'etc/defaults', 'etc/site')):
            for r in c['rules'].get(w, ()):
                if r['kind'] == 'comment':
                    continue
                if r['kind'] == 'bad':
                    parts = (r['text'] % r['dir'] if '%' in r['text'] else r['text']).split(':')
                    if len(parts) >= 2:
                        sched[parts[1].strip()] = r
                    continue
                sched[r['dir']] = r
        for r in sched.values():
            if r['kind'] == 'bad' or not c30.due('h', r['spec'], c['now'], c['tz']):
                continue
            ds = [r['dir']]
            if r['excl'] is not None:
                ds = [p for p in tr.kids(r['dir'], 'd') if not base(p).startswith('.') and not re.search(r['excl'], base(p))]
            for d in ds:
                if not tr.isdir(d):
                    continue
                if r['kind'] == 'time':
                    self.by_time(tr, d, r, c['now'])
                elif r['kind'] == 'count':
                    self.by_count(tr, d, r)
                else:
                    self.by_inv(tr, d, r, c['now'])
                tr.settle(c['now'])

    # ---- execution

    def content(self, site, p, n):
        if n[2] is None:
            return 'content of %s\n' % base(p)
        d, ls, end = n[2]
        return '\n'.join((site.d + '/' + d + '/' + x) if full else x for x, full in ls) + (end if ls or end != '\n' else '')

    def rule_text(self, site, r):
        if r['kind'] == 'comment':
            return r['text']
        top = site.d + '/' + r['dir']
        if r['kind'] == 'bad':
            return r['text'] % top if '%' in r['text'] else r['text']
        if r['kind'] == 'time':
            e = Expr(r['expr']).text()
        elif r['kind'] == 'inv':
            e = '-i ' + Expr(r['expr']).text()
        else:
            e = '-c %d' % r['n'] + (' -d' if r['d'] else '') + (' -e ' + r['e'] if r['e'] is not None else '')
        return '%s:%s:%s %s' % (c30.spec_text(r['spec']), top, '' if r['excl'] is None else r['excl'] + ':', e)

    def run(self, c, ctx):
        site = Site(ctx, ctx.dir())
        self.deleted = set()
        tree = {p: n for p, n in c['tree']}
        for p, n in sorted(tree.items()):
            if n[0] == 'd':
                os.makedirs(site.d + '/' + p, exist_ok=True)
            else:
                site.put(p, self.content(site, p, n))
        args = []
        if c['kind'] == 'cleanup':
            for w, ls in c['rules'].items():
                site.put('%s/clean.conf' % w, ''.join(self.rule_text(site, r) + '\n' for r in ls))
            args = (['-f'] if c['f'] else []) + (['-l', site.work + '/out.log'] if c['log'] else [])
            args += [site.work + '/clean.conf' if c['f'] else 'clean.conf']
        for p, n in sorted(tree.items(), reverse=True):
            os.utime(site.d + '/' + p, (n[1], n[1]))
        before = {p for p in tree if p.startswith('data') or (c['kind'] == 'inv' and p.startswith('work'))}
        tr = Tree(tree)
        if c['kind'] == 'cleanup':
            r = site.script('nbspcleanup', args, now=c['now'], tz=c['tz'])
            self.model(c, tr)
        else:
            args = c['opts'] + [site.d + '/' + p if how == 'abs' else os.path.relpath(site.d + '/' + p, site.work) for p, how in c['args']]
            r = site.program([site.inst + '/bin/nbspinvrm'] + args)
            for p, how in c['args']:
                if tr.isfile(p):
                    self.inv_run(tr, p, tr.n[p][2], '-t' in c['opts'])
        what = 'nbspcleanup' if c['kind'] == 'cleanup' else 'nbspinvrm ' + ' '.join(args)
        if r.crash:
            return Outcome('%s: %s' % (what, r.crash))
        after = set()
        for top in ('data',) + (('work',) if c['kind'] == 'inv' else ()):
            after.add(top)
            for k, v in site.files(top).items():
                after.add(top + '/' + k)
        want = {p for p in tr.n if p in before}
        after &= set(tree) | {p for p in after if p.startswith('data')}
        if after != want:
            rules = [self.rule_text(site, x).replace(site.d + '/', '') for w in ('etc', 'etc/defaults', 'etc/site', 'work') for x in c.get('rules', {}).get(w, ())]
            return Outcome('%s %s at %d: deleted but should stay: %s; left but should go: %s; created: %s; output %s %s' % (
                what, rules, c['now'], sorted(want & before - after)[:5], sorted((after - want) & before)[:5], sorted(after - before)[:3],
                r.out[-300:], r.err[-200:]))
        for p in after:
            n = tree[p]
            if n[0] == 'f' and open(site.d + '/' + p, 'rb').read() != self.content(site, p, n).encode():
                return Outcome('%s changed the content of %s' % (what, p))
        if c['kind'] == 'cleanup' and c['log'] and self.has_conf(c):
            log = site.work + '/out.log'
            if not os.path.exists(log) or r.out.strip():
                return Outcome('the output did not go to the log file: %s' % r.out[:200])
            out = open(log).read()
        else:
            out = r.out.decode('latin1')
        if c['kind'] == 'cleanup' or '-v' in c['opts']:
            for p in self.deleted:
                if tree[p][0] == 'f' and base(p) not in out and not any(base(q) in out for q in self.ups(p)):
                    return Outcome('%s deleted %s without reporting it' % (what, p))
        ups = {p.rsplit('/', 1)[0] for p in self.deleted}
        stay = {p.rsplit('/', 1)[0] for p in after if '/' in p}
        kinds = set()
        if c['kind'] == 'cleanup':
            kinds = {'%s rule%s' % (r['kind'], ' with excluded directories' if r.get('excl') else '') for ls in c['rules'].values() for r in ls}
        return Outcome(None, bool(ups & stay), (c['kind'], len(self.deleted), len(after), tuple(sorted(kinds))), sorted(kinds) + [c['kind']])

    def ups(self, p):
        while '/' in p:
            p = p.rsplit('/', 1)[0]
            yield p

    def has_conf(self, c):
        return any(w in c['rules'] for w in (('work',) if c['f'] else ('etc', 'etc/defaults', 'etc/site')))


CHECK = Check()
