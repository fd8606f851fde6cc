"""spoolfilter, arcfilter, panfilter, nbspfilter, netfilter and craftinsert."""
import calendar, datetime, os, re, tarfile, time
from pbt import Outcome
from tclinst import Site
from c34 import wild
from c35 import nearest
from c38 import fakes, calls

STATIONS, WMO = ['tjsj', 'kwbc', 'knes', 'kokx'], ['saus42', 'fpus54', 'sdus53', 'tirs00', 'yzdz98']
EXPR = [None, None, None, 'saus', 'kwbc,!fpus', '^k, !_s', '', '!tjsj', 'mtr|grib']
CONDS = [('1', lambda p: True), ('0', lambda p: False), ('[regexp {tjsj} $rc(station)]', lambda p: p['station'] == 'tjsj'), ('[regexp {^k} $rc(station)]', lambda p: p['station'][0] == 'k'),
         ('[regexp {^s} $rc(wmoid)]', lambda p: p['wmoid'][0] == 's'), ('$rc(txtflag) == 1', lambda p: p['txt']), ('$rc(awips) ne ""', lambda p: p['awips'] != ''),
         ('($rc(txtflag) == 0) && ($rc(station) eq "knes")', lambda p: not p['txt'] and p['station'] == 'knes'), ('$rc(type) > 4', lambda p: p['line'][1] > 4),
         ('$rc(no_such) == 1', None)]
PATHS = [('all.X', lambda p: 'all.X'), ('[file join $rc(yyyy) $rc(station) $rc(ymd).X]', lambda p: '%s/%s/%s.X' % (p['y'][:4], p['station'], p['y'])),
         ('$rc(station)/$rc(wmoid1).X', lambda p: '%s/%s.X' % (p['station'], p['wmoid'][:3])), ('d/[string toupper $rc(awips1)].X', lambda p: 'd/%s.X' % p['awips'][:3].upper())]
HOSTS = ['localhost:8020', '192.0.2.1:9', 'pan.example.org:1234', '10.0.0.1:65535']
SETS = [('pre', 'etc/%sfilterpre.rc'), ('dflt', 'etc/defaults/%sfilter.rc'), ('site', 'etc/site/%sfilter.rc'), ('rcd', 'etc/rc.d/%s/x.rc'), ('post', 'etc/%sfilterpost.rc')]


class Check:
    pid = 'C40'
    title = 'The filters for archives, notices and the own rules do just what the rules say'
    parts = ['inst']
    drivers = []
    quick, thorough = 2200, 80000
    rule = 'a case counts as non-trivial when some products met rules (or the expression) and others did not, or craftinsert had a file to insert'
    assumptions = ['no product is given twice', 'one file in each directory of rules']

    def gen(self, src):
        kind = src.wpick((3, 'spool'), (4, 'arc'), (3, 'pan'), (3, 'nbsp'), (3, 'net'), (3, 'craft'))
        now = int(datetime.datetime(2026, src.int(1, 12), src.int(1, 28), src.draw(24), src.wpick((2, src.draw(60)), (1, 59)), src.draw(60), tzinfo=datetime.timezone.utc).timestamp())
        c = dict(kind=kind, now=now, tz=src.pick(['UTC', 'America/Puerto_Rico', 'Asia/Tokyo']))
        if kind == 'craft':
            ymd = time.strftime('%Y%m%d', time.gmtime(now - src.pick([0, 0, 0, 86400])))
            c.update(name=src.wpick((8, '%s_%s_%04d' % (src.pick(['TJUA', 'KOKX', 'PABC']), ymd, src.draw(2400) // 100 * 100 + src.draw(60))), (1, 'TJUA_%s' % ymd), (1, 'tjua_%s_0000' % ymd), (1, 'x')),
                     suf=src.pick(['', '_V06', '.raw', '_DOP1', '_NOP4', '_V06_ROP4']), tmp=src.bool(0.8), size=src.size(0, 1000, 30000), en=src.wpick((3, None), (1, 1), (1, 0)), wid=src.pick([None, None, 'l2']),
                     mv=src.bool(0.4), dele=src.bool(0.4), nonop=src.bool(0.4), um=src.pick([None, '022', '077']), fext=src.pick([None, '.part']), fail=src.bool(0.2), fifo=src.bool(0.5), spool=src.bool(0.5),
                     nodir=src.bool(0.05), also=src.bool(0.2))
            return c
        c['ccb'] = src.bool(0.6)
        c['p'] = []
        for i in range(src.wpick((1, 0), (6, src.int(1, 6)), (1, src.int(6, 14)))):
            now += src.wpick((5, src.draw(60)), (1, src.draw(90000)))
            st, w = src.pick(STATIONS), src.pick(WMO)
            t = now - src.wpick((5, src.draw(4000)), (1, src.draw(500000)))
            ext = src.wpick((3, '-' + src.pick(['mtrsju', 'zfpfwd', 'n0rokx'])), (2, ''), (2, '+grib2'))
            c['p'].append(dict(now=now, line=[1000 + i * 7 + src.draw(7), src.int(1, 9), src.draw(200), src.draw(100), src.draw(9)], fn='%s_%s%s' % (st, w, ext), station=st, wmoid=w,
                               awips=ext[1:] if ext[:1] == '-' else '', t=time.strftime('%d%H%M', time.gmtime(t)), data=src.wpick((3, 'text'), (2, 'bin'), (1, 'short'), (1, None)), n=src.size(0, 300, 9000)))
        c['quit'] = src.bool(0.2)
        if kind == 'spool':
            c.update(strip=src.wpick((2, None), (2, 1), (3, 0)), sub=src.wpick((3, None), (1, '%u'), (1, '%Y/%m-%d'), (1, '')), e=src.pick(EXPR), nodir=src.bool(0.04), dir=src.bool(0.3))
            return c
        sets = [x for x, f in SETS if src.bool(0.5)] or ['site']
        c['sets'] = {}
        for x in sets:
            c['sets'][x] = [dict(c=src.wpick((20, src.draw(len(CONDS) - 1)), (1, len(CONDS) - 1)), brk=src.bool(0.3), a=self.action(src, kind)) for _ in range(src.int(1, 4))]
        c['where'] = src.bool(0.3)
        if kind == 'nbsp':
            c['ri'] = {k: [x for x in ('conf', 'dflt', 'site', 'rcd') if src.bool(0.4)] for k in ('ri', 'rq')}
            c['badri'] = src.bool(0.05)
        if kind == 'net':
            c['dflt'] = src.wpick((2, None), (1, src.draw(2)))
            c['body'] = src.wpick((3, None), (1, 0))
        return c

    def action(self, src, kind):
        if kind == 'arc':
            return [(src.draw(len(PATHS)), src.draw(len(PATHS))) for _ in range(src.wpick((5, 1), (1, 2)))]
        if kind == 'pan':
            return src.wpick((4, ['add', src.pick(HOSTS)]), (1, ['set', src.pick(HOSTS), src.pick(HOSTS)]), (1, ['off']))
        if kind == 'net':
            return src.wpick((5, [src.pick(['0', '192.0.2.1', 'host.example.org']), src.draw(2)]), (1, ['err']))
        return src.wpick((6, ['log', src.draw(100)]), (1, ['err']))

    # ---- execution

    def run(self, c, ctx):
        d = ctx.dir()
        k = c['kind']
        conf = '' if k == 'craft' else 'set common(ccbsaved) %d;\nset filterslib(ccbsaved) %d;\n' % (c['ccb'], c['ccb'])
        site = Site(ctx, d, conf + 'set env(PATH) {%s/bin:%s/bin:%s/libexec/nbsp:/usr/bin:/bin};\n' % (d, ctx.src['inst'], ctx.src['inst']))
        out = Outcome()
        out.tags = [k]
        if k == 'craft':
            out.bad = self.craft(c, site, out)
            return out
        adata, ainv = site.var + '/noaaport/archive/data', site.var + '/noaaport/archive/inv'
        os.makedirs(adata)
        os.makedirs(ainv)
        inp, P = [], list(c['p'])
        for i, p in enumerate(P):
            p = P[i] = dict(p)
            p['fb'] = '%s.%s_%d' % (p['fn'], p['t'], p['line'][0])
            p['path'] = '%s/spool/%d/%s' % (d, i, p['fb'])
            if p['data'] is None:
                p['b'] = None
            elif p['data'] == 'short':
                p['b'] = b'\1' * (p['n'] % 24)
            else:
                p['b'] = (b'@' * 24 if c['ccb'] else b'') + ((b'%d text\r\r\n' % i) * (p['n'] // 7 + 1) if p['data'] == 'text' else bytes(range(256)) * (p['n'] // 256 + 1))
            if p['b'] is not None:
                site.put('spool/%d/%s' % (i, p['fb']), p['b'])
            b = (p['b'] or b'')[:512]
            b = b[24:] if c['ccb'] else b
            p['txt'] = bool(b) and all(33 <= x < 127 or x in b' \t\n\v\f\r\x01\x03\x1e\x17' for x in b) and not p['wmoid'].startswith(('sdus', 'ti')) and not p['fn'].endswith('+grib2')
            s = nearest(p['t'], p['now'])
            p['secs'] = min(s)
            p['y'] = time.strftime('%Y%m%d', time.gmtime(p['secs']))
            p['in'] = '%s %s %s' % (' '.join(str(x) for x in p['line']), p['fn'], p['path'])
            inp.append('@now %d\n%s\n' % (p['now'], p['in']))
        if c['quit'] and inp:
            inp.append('\n1 1 1 1 1 tjsj_after /nowhere\n')
        c = dict(c, p=P)
        out.bad = getattr(self, k)(c, site, out, ''.join(inp).encode(), adata, ainv)
        return out

    def compare(self, got, want):
        got = {k: v for k, v in got.items() if v != ('dir',)}
        for k in sorted(set(got) | set(want)):
            if got.get(k) != want.get(k):
                return '%s: %r, expected %r' % (k, (got.get(k) or b'(none)')[:300], (want.get(k) or b'(none)')[:300])

    def end(self, r):
        if r.code or r.crash:
            return 'status %s %s: %r' % (r.code, r.crash, (r.out + r.err)[-300:])

    def spool(self, c, site, out, inp, adata, ainv):
        site.sample('spoolfilter.conf')
        rel = 'my/data' if c['dir'] else 'var/noaaport/archive/data/spool'
        top = site.d + '/' + rel
        if not c['nodir']:
            os.makedirs(top)
        conf = 'set spoolfilter(datadir) %s\n' % top if c['dir'] else ''
        for k, v in (('stripccb', c['strip']), ('datasubdir', c['sub']), ('uwildregex', c['e'])):
            if v is not None:
                conf += 'set spoolfilter(%s) {%s}\n' % (k, v)
        site.put('etc/site/spoolfilter.conf', conf)
        want, n = {}, 0
        for p in c['p']:
            if c['e'] is not None and not wild(c['e'], p['fn']):
                continue
            n += 1
            if p['b'] is None or c['nodir']:
                continue
            sub = time.strftime('%Y%m%d' if c['sub'] is None else c['sub'], time.gmtime(p['now']))
            want[(sub + '/' if sub else '') + p['station'] + '/' + p['fb']] = p['b'][24:] if c['ccb'] and c['strip'] != 0 else p['b']
        out.nontrivial = 0 < n < len(c['p']) or len(want) > 1
        r = site.script('spoolfilter', stdin=inp, now=c['now'], tz=c['tz'])
        return self.end(r) or self.compare(site.files(rel), want)

    def rules(self, c, site, name, short, text, do, out):
        """Writes the rules; do(product, action) for each action in order -> True if it ends the product in an error."""
        site.sample(name + 'filter.rc', name + 'filter.conf')
        used = []
        for x, f in SETS:
            if x in c['sets']:
                site.put(f % (short if x == 'rcd' else name), ''.join('lappend cond {%s}\nlappend action {\n%s%s}\n' % (CONDS[r['c']][0], text(r['a']), 'break;\n' if r['brk'] else '') for r in c['sets'][x]))
                if not (x == 'dflt' and 'site' in c['sets']):
                    used.append(x)
        met = set()
        for p in c['p']:
            self.begin(p)
            m = False
            try:
                for x in used:
                    for r in c['sets'][x]:
                        f = CONDS[r['c']][1]
                        if f is None:
                            raise KeyError
                        if f(p):
                            m = True
                            if do(p, r['a']):
                                raise KeyError
                            if r['brk']:
                                break
                err = False
            except KeyError:
                err = True
            met.add(m)
            self.done(p, err)
        out.nontrivial = len(met) > 1
        out.evals = max(1, len(c['p']))

    def arc(self, c, site, out, inp, adata, ainv):
        tars, inv = {}, {}
        self.begin = self.done = lambda *a: None

        def do(p, acts):
            for a, b in acts:
                if p['b'] is None:
                    continue
                t, i = PATHS[a][1](p).replace('X', 'tar'), PATHS[b][1](p).replace('X', 'inv')
                tars.setdefault(t, []).append((p['fb'], p['b']))
                inv[i] = inv.get(i, '') + ','.join([p['station'], p['wmoid'], p['awips'], p['t'], str(p['secs']), p['fb'], t]) + '\n'

        self.rules(c, site, 'arc', 'arc', lambda acts: ''.join('arcfilterlib_tar rc %s %s;\n' % (PATHS[a][0].replace('X', 'tar'), PATHS[b][0].replace('X', 'inv')) for a, b in acts), do, out)
        if c['where']:
            site.put('etc/site/arcfilter.conf', 'set arcfilter(datadir) %s/a;\nset arcfilter(invdir) %s/i;\n' % (site.d, site.d))
            os.makedirs(site.d + '/a')
            os.makedirs(site.d + '/i')
        r = site.script('arcfilter', stdin=inp, now=c['now'], tz=c['tz'])
        if self.end(r):
            return self.end(r)
        e = self.compare(site.files('i' if c['where'] else 'var/noaaport/archive/inv'), {k: v.encode() for k, v in inv.items()})
        if e:
            return 'inventory %s (%r)' % (e, (r.out + r.err)[-200:])
        a = 'a' if c['where'] else 'var/noaaport/archive/data'
        got = {k: v for k, v in site.files(a).items() if v != ('dir',)}
        # tar leaves nothing or an empty archive where the product is missing
        for k in sorted(set(got) | set(tars)):
            L = []
            if got.get(k):
                with tarfile.open('%s/%s/%s' % (site.d, a, k)) as t:
                    L = [(m.name, t.extractfile(m).read()) for m in t.getmembers()]
            if L != tars.get(k, []):
                return 'archive %s: %s, expected %s (%r)' % (k, [(x, len(y)) for x, y in L], [(x, len(y)) for x, y in tars.get(k, [])], (r.out + r.err)[-200:])

    def pan(self, c, site, out, inp, adata, ainv):
        fakes(site, 'nbspudpsend')
        want = []

        def begin(p):
            self.on, self.hosts = False, []

        def do(p, a):
            if a[0] == 'off':
                self.on = False
            else:
                self.on = True
                self.hosts = self.hosts + [a[1]] if a[0] == 'add' else a[1:]

        def done(p, err):
            if self.on and not err:
                s = ' '.join([x for x in (p['wmoid'], p['station'], p['t'], p['awips'], p['fb']) if x])
                want.extend(('nbspudpsend', ['-e', s] + h.split(':'), []) for h in self.hosts)

        self.begin, self.done = begin, done
        text = {'add': lambda a: 'set udp(status) 0;\nlappend udp(host) %s;\n' % a[1], 'set': lambda a: 'set udp(status) 0;\nset udp(host) [list %s];\n' % ' '.join(a[1:]), 'off': lambda a: 'set udp(status) 1;\n'}
        self.rules(c, site, 'pan', 'pan', lambda a: text[a[0]](a), do, out)
        r = site.script('panfilter', stdin=inp, now=c['now'], tz=c['tz'])
        got = calls(site)
        if self.end(r) or got != want:
            return self.end(r) or 'notices %s, expected %s (%r)' % (got, want, (r.out + r.err)[-200:])

    def nbsp(self, c, site, out, inp, adata, ainv):
        log = site.work + '/rlog'
        want = []
        self.begin = self.done = lambda *a: None
        w = lambda s: 'set f [open {%s} a]; puts $f "%s"; close $f;\n' % (log, s)
        where = {'conf': 'etc/nbspfilter.%s', 'dflt': 'etc/defaults/nbspfilter.%s', 'site': 'etc/site/nbspfilter.%s', 'rcd': 'etc/rc.d/nbsp/x.%s'}
        for k in ('ri', 'rq'):
            for x in c['ri'][k]:
                site.put(where[x] % k, w(k + ' ' + x))
        if c['badri']:
            site.put('etc/rc.d/nbsp/x.ri', 'error wrong')

        def do(p, a):
            if a[0] == 'err':
                return True
            want.append('%d %s %s' % (a[1], p['fb'], p['y']))

        self.rules(c, site, 'nbsp', 'nbsp', lambda a: w('%d $rc(fbasename) $rc(ymd)' % a[1]) if a[0] == 'log' else 'error wrong;\n', do, out)
        ri = ['ri ' + x for x in ('conf', 'dflt', 'site', 'rcd') if x in c['ri']['ri'] and not (x == 'rcd' and c['badri'])]
        want = ri + want + ['rq ' + x for x in ('conf', 'dflt', 'site', 'rcd') if x in c['ri']['rq']]
        if c['badri']:
            want = ri
        r = site.script('nbspfilter', stdin=inp, now=c['now'], tz=c['tz'])
        got = open(log).read().split('\n')[:-1] if os.path.exists(log) else []
        if self.end(r) or got != want:
            return self.end(r) or 'rules wrote %s, expected %s (%r)' % (got, want, (r.out + r.err)[-200:])

    def net(self, c, site, out, inp, adata, ainv):
        want = []
        d = 0 if c['dflt'] is None else c['dflt']

        def begin(p):
            self.allow = {'0': d}

        def do(p, a):
            if a[0] == 'err':
                return True
            self.allow[a[0]] = a[1]

        self.begin, self.done = begin, lambda p, err: want.append('0 ' + ' '.join('%s %d' % x for x in sorted(self.allow.items())))
        if c['body'] == 0:
            for p in c['p']:
                p['txt'] = False
        self.rules(c, site, 'net', 'net', lambda a: 'error wrong;\n' if a[0] == 'err' else 'set allow(%s) %d;\n' % tuple(a), do, out)
        conf = ''
        if c['dflt'] is not None:
            conf += 'set netfilter(allowdefault) %d;\n' % d
        if c['body'] is not None:
            conf += 'set netfilter(dobody) 0;\n'
        site.put('etc/site/netfilter.conf', conf)
        drv = site.put('work/netdrv', 'set command 0; set output_status 1;\nsource {%s/libexec/nbsp/netfilter};\nputs "=> init $output_status";\nset command 1;\nwhile {[gets stdin input] > 0} {\nset output_status 1;\n'
                       'source {%s/libexec/nbsp/netfilter};\nset s $output_status;\nforeach k [lsort [array names allow]] {append s " $k $allow($k)"};\nputs "=> $s";\n}\nset command 2; set output_status 1;\n'
                       'source {%s/libexec/nbsp/netfilter};\nputs "=> end $output_status";\n' % ((site.inst,) * 3))
        r = site.script(os.path.relpath(drv, site.inst + '/bin'), stdin=inp, now=c['now'], tz=c['tz'])
        got = [x[3:] for x in r.out.decode('latin-1').split('\n') if x.startswith('=> ')]
        want = ['init 0'] + want + ['end 0']
        if self.end(r) or got != want:
            return self.end(r) or 'allowed %s, expected %s (%r)' % (got, want, r.err[-200:])

    def craft(self, c, site, out):
        fakes(site, 'nbspinsert', 'logger')
        spool = 'myspool' if c['spool'] else 'var/noaaport/nbsp/spool'
        fifo = site.d + '/f.fifo' if c['fifo'] else '/var/run/nbsp/infeed.fifo'
        conf = ''
        for k, v in (('nbsp_enable', c['en']), ('nbsp_spooldir', c['spool'] and site.d + '/' + spool), ('nbsp_infifo', c['fifo'] and fifo), ('nbsp_wmoid', c['wid']), ('mvtospool', c['mv'] and 1),
                     ('delete', c['dele'] and 1), ('deletenonop', c['nonop'] and 1), ('umask', c['um']), ('ldm_fext', c['fext'])):
            if v is not None and v is not False:
                conf += 'set craftinsert(%s) %s\n' % (k, v)
        site.put('etc/craftinsert.conf', conf)
        if not c['nodir']:
            os.makedirs(site.d + '/' + spool)
        name = c['name'] + c['suf']
        data = (b'AR2V0006.%d' % c['size'] + b'z' * c['size'])
        rel = 'work/in/' + name
        site.put(rel + ((c['fext'] or '.tmp') if c['tmp'] else ''), data)
        if c['tmp'] and c['also']:
            site.put(rel, b'old')
        nonop = re.search('DAN1|DOP1|FOP1|NOP4|ROP4|NOP3', name)
        m = re.match(r'([A-Z]{4})_(\d{8})_(\d{4})', name)
        en = c['en'] != 0
        st = m and m[1].lower()
        if c['fail'] and m:
            site.put('rec/fail/nbspinsert.%s_%s' % (st, c['wid'] or 'level2'), '')
        r = site.script('craftinsert', [site.d + '/' + rel], now=c['now'], tz=c['tz'])
        got = [x for x in calls(site) if x[0] != 'logger']
        files = {k: v for k, v in site.files('work/in').items()}
        sp = {k: v for k, v in site.files(spool).items() if v != ('dir',)} if not c['nodir'] else {}
        left, insert, code, stored = {name: data}, False, 0, False
        if en:
            if nonop:
                left = {} if c['nonop'] else left
            elif not m or c['nodir']:
                code = 1
            else:
                insert = True
                code = 1 if c['fail'] else 0
                if c['mv']:
                    left = {}
                    stored = not c['fail']
                elif c['dele'] and not c['fail']:
                    left = {}
        out.nontrivial = insert
        e = ' (%s, %r)' % (name, (r.out + r.err)[-300:])
        if (r.code != 0) != (code != 0) or r.crash:
            return 'craftinsert: status %s %s, expected %d%s' % (r.code, r.crash, code, e)
        if self.compare(files, left):
            return 'craftinsert: input file ' + self.compare(files, left) + e
        if not insert:
            return 'craftinsert inserted %s or stored %s%s' % (got, sorted(sp), e) if got or sp else None
        if len(got) != 1 or got[0][0] != 'nbspinsert':
            return 'craftinsert executed %s%s' % (got, e)
        a, read = got[0][1], got[0][2]
        i = '-i' in a
        a = [x for x in a if x != '-i']
        fb = '%s_%s.%s%s_' % (st, c['wid'] or 'level2', m[2][6:], m[3])
        path = '%s/%s/%s/%s' % (site.d, spool, st, fb)
        if len(a) != 9 or a[:2] != ['-f', fifo] or a[3:8] != ['0'] * 4 + [fb.split('.')[0]] or a[8] != path + a[2] or not a[2].isdigit():
            return 'craftinsert: nbspinsert %s, expected %s...%s' % (a, path, e)
        ms = int(a[2]) - (c['now'] - calendar.timegm(time.strptime(m[2], '%Y%m%d'))) * 1000
        if not 0 <= ms < 20000:
            return 'craftinsert: number %s at %d%s' % (a[2], c['now'], e)
        if i == c['mv'] or i and read[:1] != [data.decode()] or c['mv'] and 'file' not in read:
            return 'craftinsert: nbspinsert %s got %r%s' % (got[0][1], read, e)
        if self.compare(sp, {'%s/%s%s' % (st, fb, a[2]): data} if stored else {}):
            return 'craftinsert: spool ' + self.compare(sp, {'%s/%s%s' % (st, fb, a[2]): data} if stored else {}) + e
        mode = os.stat(site.d + '/' + spool + '/' + st).st_mode & 0o777
        if mode != 0o777 & ~int(c['um'] or '002', 8):
            return 'craftinsert: directory with permissions %o%s' % (mode, e)


CHECK = Check()
