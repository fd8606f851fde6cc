"""The dispatchers: masterfilter, the managers of dafilter, rstfilter, gribfilter and gpfilter, and clusterfilter."""
import glob, os, re
from pbt import Outcome
from tclinst import CONF, Site

MASTER = ['inventory', 'spoolfilter', 'rstfilter', 'dafilter', 'metarfilter', 'uafilter', 'wsfilter', 'gisfilter', 'gribfilter', 'panfilter',
          'msgfilter', 'trackfilter', 'nntpfilter', 'gpfilter', 'ldmfilter', 'nbspfilter']
ON = {'inventory', 'rstfilter', 'dafilter', 'metarfilter', 'uafilter', 'gribfilter'}
DATADIR = {'da': 'data/digatmos', 'rst': 'data/rst', 'grib': 'data/grib', 'gp': 'data/gempak'}
NAMES = ['tjsj_sdus52-n0rjua', 'kfwd_sdus54-n0qfws', 'knes_tigb01', 'knes_tigq02', 'kwbc_yzdz98+grib2', 'kwbe_lldz50+grib', 'kwbg_yzcx20+grib2',
         'ekmi_phna98+grib', 'kjax_saus70-mtrjax', 'tjsj_fxca62-afdsju', 'kbou_wfus55-torbou', 'sbbr_sabz31', 'kwbn_hmgz99+bufr', 'krah_sdus82-nvwrax', 'cwao_fpcn11']
RES = ['_sdus[2-8]', '_ti', r'\+grib', '.*', '^kwb[ce]', '_sdus(52|82)', 'sju$', '-n0r', '^k', '[0-9]$', 'x', '_(sa|fx|fp)', '^tjsj_', 'grib2$', 'mtr|tor', '.']


def wild(p, s):
    """A comma separated list of expressions; the last one that matches decides, "!" rejects."""
    r = False
    for x in p.split(',') if p else []:
        x = x.strip()
        no = x.startswith('!')
        if re.search(x[no:], s):
            r = not no
    return r


class Check:
    pid = 'C34'
    title = 'A dispatcher gives every filter exactly its products in order, also if one dies'
    parts = ['inst']
    drivers = []
    quick, thorough = 1400, 40000
    rule = ('a case counts as non-trivial when at least two filters received products and a filter died in between, was missing, or did not get '
            'them all')
    assumptions = ['a filter that dies has ended before the next product is written', 'expressions that are valid']

    # ---- generation

    def uregex(self, src):
        return ','.join(src.pick(['', '', '', ' ']) + ('!' if i and src.bool(0.5) or src.bool(0.1) else '') + src.pick(RES)
                        for i in range(src.wpick((4, 1), (3, 2), (2, 3))))

    def gen(self, src):
        k = src.wpick((5, 'master'), (1, 'once'), (4, 'manager'), (4, 'cluster'), (1, 'wild'))
        c = dict(kind=k)
        seq = src.int(1, 5000)
        c['msgs'] = []
        for i in range(src.wpick((5, src.int(1, 12)), (1, src.int(13, 40)))):
            seq += src.int(1, 3)
            fn = src.pick(NAMES)
            c['msgs'].append((seq, fn))
        c['quit'] = src.wpick((3, None), (1, src.draw(len(c['msgs']) + 1)))
        if k == 'wild':
            c['q'] = [(src.wpick((9, self.uregex(src)), (1, '')), src.pick(NAMES)) for _ in range(src.int(1, 40))]
            return c
        if k in ('master', 'once'):
            c['argc'] = src.pick([1, 2, 3, 7])
            c['how'] = src.pick(['enable', 'enable', 'list', 'both'])
            c['enable'] = {f: src.draw(2) for f in MASTER if src.bool(0.5)}
            c['list'] = sorted({src.pick(MASTER + ['myfilter', 'other-manager', 'x.sh']) for _ in range(src.int(1, 5))}, key=lambda x: (len(x), x))
            c['state'] = {f: src.wpick((7, 'ok'), (1, 'missing'), (1, 'noexec')) for f in MASTER + ['myfilter', 'other-manager', 'x.sh']}
            names = self.master_list(c)
        elif k == 'manager':
            c['f'] = src.pick(['da', 'rst', 'grib', 'gp'])
            c['types'] = [('t%d' % i, self.uregex(src)) for i in range(src.int(1, 5))]
            c['dflt'] = src.bool(0.4)
            c['state'] = {'worker': src.wpick((12, 'ok'), (1, 'missing'), (1, 'noexec'))}
            names = ['worker']
        else:
            c['nodes'] = []
            for i in range(src.int(1, 3)):
                n = dict(name=src.pick(['dl385', 'node', 'h-']) + '%d' % i, dir=src.pick([None, None, '/opt/filters']), opts=src.pick([None, None, '-p 2222', '-q -x']),
                         re=src.wpick((3, None), (1, self.uregex(src))), f=[])
                for f in ['gpfilter', 'gisfilter', 'dafilter', 'rstfilter', 'inventory']:
                    if src.bool(0.45):
                        n['f'].append(dict(name=f, on=src.wpick((3, 1), (2, 2), (1, 0)), path=src.wpick((4, None), (1, '/usr/bin/my' + f)),
                                           opts=src.wpick((4, None), (1, '-p 99')), re=src.wpick((1, None), (1, self.uregex(src)))))
                c['nodes'].append(n)
            c['state'] = {'ssh': src.wpick((9, 'ok'), (1, 'missing'))}
            names = [x[0] for x in self.cluster_list(c)]
        c['die'] = {}
        if names:
            for i, (s, fn) in enumerate(c['msgs']):
                if src.bool(0.15):
                    for n in {src.pick(names) for _ in range(src.wpick((3, 1), (1, 3)))}:
                        c['die']['%s.%d' % (n, s)] = src.pick(['exit', 'err', 'kill'])
        c['gone'] = None
        if k in ('master', 'cluster') and len(c['msgs']) > 4 and names and src.bool(0.3):
            a = src.int(1, len(c['msgs']) - 2)
            c['gone'] = (src.pick(names), a, src.int(a + 1, len(c['msgs'])))
        return c

    # ---- model

    def master_list(self, c):
        if c['how'] != 'enable':
            return list(c['list'])
        return [f for f in MASTER if c['enable'].get(f, f in ON)]

    def cluster_list(self, c):
        """(node:program, path, options, expression) of the open filters"""
        o = []
        for n in c['nodes']:
            for f in n['f']:
                if not f['on']:
                    continue
                nm = f['name'] + ('-manager' if f['on'] == 2 else '')
                p = f['path'] or (n['dir'] or '@lib') + '/' + nm
                o.append(('%s:%s' % (n['name'], p.rsplit('/', 1)[1]), p, f['opts'] or n['opts'] or '', f['re'] or n['re'] or '.*', nm, f))
        return o

    def finfo(self, c, m):
        return '%d 1 0 %d 2 %s %s/%s.031530_%08d' % (m[0], m[0] % 7, m[1], '/var/noaaport/nbsp/spool/' + m[1][:4], m[1], m[0])

    # ---- execution

    def run(self, c, ctx):
        if c['kind'] == 'wild':
            return self.run_wild(c, ctx)
        site = Site(ctx, ctx.dir())
        rec, lib, off = site.d + '/rec', site.d + '/lib', site.d + '/off'
        for x in (rec + '/die', rec + '/dead', lib, off, site.d + '/path'):
            os.makedirs(x)
        site.extra = {'NBSP_REC': rec}
        exe = open(site.inst + '/lib/filterrec', 'rb').read()
        for k, how in c['die'].items():
            site.put('rec/die/' + k, how + '\n')

        def filt(name, state):
            if state != 'missing':
                os.chmod(site.put(name, exe), 0o755 if state == 'ok' else 0o644)
        gone = c['gone']
        inp = []
        args = []
        end = len(c['msgs']) if c['quit'] is None else c['quit']
        if c['kind'] in ('master', 'once'):
            conf = 'set masterfilter(libdir) {%s}\n' % lib
            if c['how'] != 'list':
                conf += ''.join('set masterfilter(%s,enable) %d\n' % x for x in sorted(c['enable'].items()))
            if c['how'] != 'enable':
                conf += 'set masterfilter(filterlist) [list %s]\n' % ' '.join(c['list'])
            site.put(['etc/masterfilter.conf', 'etc/site/masterfilter.conf'][len(c['msgs']) % 2], conf)
            if len(c['msgs']) % 2:
                site.sample('masterfilter.conf') if os.path.exists(site.inst + '/etc/nbsp/masterfilter.conf-sample') else site.put('etc/masterfilter.conf', conf)
            names = self.master_list(c)
            for f in names:
                filt('lib/' + f, c['state'][f])
            open_ = [f for f in names if c['state'][f] == 'ok']
            prog = 'masterfilter'
            binof = lambda n: 'lib/' + n
        elif c['kind'] == 'manager':
            f = c['f'] + 'filter'
            prog = f + '-manager'
            filt('lib/worker', c['state']['worker'])
            conf = 'set %s(slave) {%s}\n' % (f, lib + '/worker')
            types = c['types'] + ([('default', '.*')] if c['dflt'] else [])
            conf += 'set %s(slave,types) [list %s]\n' % (f, ' '.join(t for t, _ in types))
            conf += ''.join('set %s(slave,%s,ure) {%s}\n' % (f, t, u) for t, u in types if t != 'default')
            if c['f'] == 'gp':
                conf += 'set gpfilter(dec_rootdir) {%s}\nset gpfilter(dec_datadir) {%s}\n' % (site.var, site.var + '/data/gempak')
                os.makedirs(site.var + '/data/gempak')
            else:
                os.makedirs(site.var + '/noaaport/' + DATADIR[c['f']])
            site.put('etc/%s.conf' % f, conf)
        else:
            prog = 'clusterfilter'
            filt('path/ssh', c['state']['ssh'])
            os.symlink('/bin/true', site.d + '/path/logger')
            site.put('etc/site/filters.conf', CONF + 'set env(PATH) {%s/path}\n' % site.d)
            conf = 'set clusterfilter(nodes) [list %s]\n' % ' '.join(n['name'] for n in c['nodes'])
            for n in c['nodes']:
                for k, v in (('filter_dir', n['dir']), ('sshopts', n['opts']), ('fname_uregex', n['re'])):
                    if v is not None:
                        conf += 'set clusterfilter(%s,%s) {%s}\n' % (k, n['name'], v)
                for f in n['f']:
                    conf += 'set clusterfilter(enable,%s,%s) %d\n' % (n['name'], f['name'], f['on'])
                    for k, v in (('filter_path', f['path']), ('sshopts', f['opts']), ('fname_uregex', f['re'])):
                        if v is not None:
                            conf += 'set clusterfilter(%s,%s,%s) {%s}\n' % (k, n['name'], f['name'], v)
            site.put('etc/clusterfilter.conf', conf)
            cl = self.cluster_list(c)
            open_ = [x[0] for x in cl] if c['state']['ssh'] == 'ok' else []
            binof = lambda n: 'path/ssh'

        # what each filter should get: lists of messages; a message may be lost only while the program of the filter is away
        want, maybe = {}, set()
        dead = {}
        for i, m in enumerate(c['msgs']):
            if i == c['quit']:
                inp.append('')
            if gone and i == gone[1]:
                inp.append('@mv %s/%s %s/prog' % (site.d, binof(gone[0]), off))
            back = gone and i == gone[2]
            if back:
                inp.append('@mv %s/prog %s/%s' % (off, site.d, binof(gone[0])))
            away = gone and gone[1] <= i < gone[2]
            inp.append(self.finfo(c, m))
            if i >= end or c['kind'] == 'once':
                continue
            for n in (['worker'] if c['kind'] == 'manager' else open_):
                if c['kind'] == 'cluster' and not wild(next(x[3] for x in cl if x[0] == n), m[1]):
                    continue
                if c['kind'] == 'manager':
                    t = next((t for t, u in types if wild(u, m[1])), None)
                    if c['f'] == 'grib' and '+grib' not in m[1] or t is None or c['state']['worker'] != 'ok':
                        continue
                    key = t
                else:
                    key = n
                mine = gone and (c['kind'] == 'cluster' or n == gone[0])
                if mine and dead.get(key):
                    if away:
                        continue
                    if dead[key] == 1 and c['kind'] == 'master':     # the filter is opened again after this one at the latest
                        maybe.add((key, m[0]))
                        if '%s.%d' % (n, m[0]) in c['die']:
                            os.unlink(rec + '/die/%s.%d' % (n, m[0]))
                dead[key] = 0
                want.setdefault(key, []).append(m[0])
                if '%s.%d' % (n, m[0]) in c['die']:
                    if (key, m[0]) not in maybe:
                        inp.append('@gone %s/dead/%s.%d' % (rec, n, m[0]))
                        dead[key] = 1
        if c['kind'] == 'once':
            m = c['msgs'][0]
            w = self.finfo(c, m).split(' ')
            args = {1: w[6:], 2: w[5:], 3: [w[0]] + w[5:], 7: w}[c['argc']]
            base = w[6].rsplit('/', 1)[1]
            exp = {1: '0 0 0 0 0 %s %s' % (base[:base.rindex('.')], w[6]), 2: '0 0 0 0 0 ' + ' '.join(w[5:]), 3: w[0] + ' 0 0 0 0 ' + ' '.join(w[5:]), 7: ' '.join(w)}[c['argc']]
            inp = []
        r = site.script(prog, args, stdin=('\n'.join(inp) + ('\n' if inp else '')).encode())
        if r.crash or r.code != 0 or re.search(r'while executing|invoked from within', (r.err + r.out).decode('latin1')):
            return Outcome('%s: %s %s' % (prog, r.crash or r.code, (r.err + r.out)[-400:]))
        inst = []
        for p in glob.glob(rec + '/log.*'):
            ls = open(p).read().split('\n')
            inst.append((ls[0], ls[1:-1]))
        if c['kind'] == 'once':
            got = sorted((h.split(' ')[0], [x for x in l if x not in ('', 'EOF')]) for h, l in inst)
            w = sorted((f, [exp]) for f in open_)
            if got != w:
                return Outcome('masterfilter %s: the filters got %s, not %s' % (args, got, w))
            return Outcome(None, len(open_) > 1 and len(open_) < len(names), ('once', c['argc'], len(open_)), ['once'])

        text = {m[0]: self.finfo(c, m) for m in c['msgs']}
        byname = {}
        for h, l in inst:
            if c['kind'] == 'manager':
                t = {next((t for t, u in types if wild(u, x.split(' ')[5])), None) for x in l if x not in ('', 'EOF') and len(x.split(' ')) > 5}
                if len(t) > 1:
                    return Outcome('%s: one worker got products of the types %s: %s' % (prog, sorted(map(str, t)), [x for x in l]))
                key = t.pop() if t else None
            elif c['kind'] == 'cluster':
                w = h.split(' ')
                key = w[-2] + ':' + w[-1].rsplit('/', 1)[-1]
                x = next((x for x in cl if x[0] == key), None)
                if x is None:
                    return Outcome('clusterfilter opened %s, which is not enabled' % h)
                e = 'ssh %s%s %s' % (x[2] + ' ' if x[2] else '', w[-2], x[1].replace('@lib', site.inst + '/libexec/nbsp'))
                if h != e:
                    return Outcome('clusterfilter ran "%s", not "%s"' % (h, e))
            else:
                key = h.split(' ')[0]
                if h != key:
                    return Outcome('masterfilter started a filter with arguments: %s' % h)
            byname.setdefault(key, []).append(l)
        what = '%s%s' % (prog, [(x, c['die'][x]) for x in sorted(c['die'])] + ([gone] if gone else []))
        keys = set(want) | set(byname) | (set(open_) if c['kind'] != 'manager' else set())
        for key in sorted(k for k in keys if k is not None):
            ls = sorted(byname.get(key, []), key=lambda l: int(l[0].split(' ')[0]) if l and l[0] not in ('', 'EOF') else 1 << 40)
            flat = [x for l in ls for x in l if x not in ('', 'EOF')]
            w = want.get(key, [])
            g = []
            for x in flat:
                q = int(x.split(' ')[0])
                if text.get(q) != x:
                    return Outcome('%s: %s got the line %r' % (what, key, x))
                g.append(q)
            w2 = [s for s in w if (key, s) not in maybe or s in g]
            if g != w2:
                return Outcome('%s: %s got the products %s, not %s, of %s' % (what, key, g, w2, c['msgs'][:end]))
            if c['kind'] != 'manager':
                live = [l for l in ls if l[-1:] == ['EOF']]
                if dead.get(key) or gone:
                    continue
                if not live:
                    return Outcome('%s: %s was not running at the end' % (what, key))
                q = [l for l in live if '' in l]
                if len(q) != 1 or q[0].count('') != 1 or q[0][-2:] != ['', 'EOF']:
                    return Outcome('%s: the requests to quit that %s got: %s' % (what, key, [[x[:20] for x in l] for l in live]))
        if c['kind'] == 'manager' and c['state']['worker'] == 'ok' and len(inst) < len(types):
            return Outcome('%s started %d workers for %d types' % (prog, len(inst), len(types)))
        nt = len([k for k in want if want[k]]) > 1 and (c['die'] or gone or len({len(v) for v in want.values()}) > 1)
        return Outcome(None, bool(nt), (c['kind'], c.get('f'), tuple(sorted(len(v) for v in want.values())), len(c['die'])),
                       [prog] + ['ends by ' + x for x in sorted(set(c['die'].values()))] + (['program away'] if gone else []))

    def run_wild(self, c, ctx):
        site = Site(ctx, ctx.dir())
        prog = 'source $::env(NBSP_LIB)/filters.init\n' if 0 else 'source {%s/libexec/nbsp/filters.lib}\n' % site.inst
        for p, s in c['q']:
            prog += 'puts [filterlib_uwildmat {%s} {%s}]\n' % (p, s)
        r = site.tcl(prog)
        got = r.out.decode().split()
        want = ['%d' % wild(p, s) for p, s in c['q']]
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), len(got))
            return Outcome('filterlib_uwildmat %s: %s; %s' % (c['q'][i:i + 1], got[i:i + 1], r.err[-300:]))
        o = Outcome(None, len(set(want)) > 1, ('wild', len(want)), ['uwildmat'])
        o.evals = len(want)
        return o


CHECK = Check()
