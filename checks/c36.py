"""dafilter stores every product where its rules say."""
import calendar, io, os, re, struct, tarfile, time
try:
    from re import _parser as sre
except ImportError:
    import sre_parse as sre
from c23 import nids_header
from c34 import wild
from c35 import CCB, nearest
from darules import RULES
from pbt import Outcome
from tclinst import Site

STATIONS = ['kwbc', 'kwns', 'knhc', 'phfo', 'kkci', 'tjsj', 'kwno', 'kfwd', 'pgtw', 'kbou', 'kzny', 'panc', 'egrr']


def gpk(seq, data):
    return b'\001\r\r\n%03d \r\r\n' % (seq % 1000) + data + b'\r\r\n\003'


def sample(src, pat):
    """A string that the expression matches."""
    def go(nodes):
        s = ''
        for op, a in nodes:
            op = str(op)
            if op == 'LITERAL':
                s += chr(a)
            elif op == 'ANY':
                s += src.pick('abkz019')
            elif op == 'IN':
                pool = []
                neg = False
                for o, x in a:
                    o = str(o)
                    if o == 'NEGATE':
                        neg = True
                    elif o == 'LITERAL':
                        pool.append(chr(x))
                    elif o == 'RANGE':
                        pool += [chr(y) for y in range(x[0], x[1] + 1)]
                if neg:
                    pool = [x for x in 'abcdefghijklmnopqrstuvwxyz0123456789' if x not in pool]
                s += src.pick(pool)
            elif op == 'BRANCH':
                s += go(src.pick(a[1]))
            elif op == 'SUBPATTERN':
                s += go(a[-1])
            elif op == 'MAX_REPEAT':
                for _ in range(src.int(a[0], min(a[1], a[0] + 2))):
                    s += go(a[2])
        return s
    return go(sre.parse(pat))


class Check:
    pid = 'C36'
    title = 'dafilter stores each product under the directory and name its rules give'
    parts = ['cli', 'inst']
    drivers = []
    quick, thorough = 1400, 40000
    rule = 'a case counts as non-trivial when products went to at least three files or archives and one of them received more than one, or a rule was disabled'
    assumptions = ['a product has its header lines', 'the data directories exist, as the installation makes them', 'archive-only mode is used with the archive enabled']

    # ---- generation

    def alnum(self, src, n):
        return ''.join(src.pick('abcdeknrstuxz0123456789') for _ in range(n))

    def name(self, src):
        k = src.wpick((8, 'rule'), (3, 'rad'), (2, 'rad2'), (3, 'sat'), (1, 'aws'), (2, 'grib'), (1, 'any'))
        if k == 'rad':
            return k, '%s_sdus%s%d-%s%s' % (src.pick(['tjsj', 'kfwd']), src.wpick((6, src.pick('235678')), (1, '4')), src.int(2, 4), src.pick(['n0r', 'n0q', 'nmd']), src.pick(['jua', 'fws']))
        if k == 'rad2':
            return k, src.pick(['tjua', 'kfws']) + '_level2'
        if k == 'sat':
            w = src.pick(['tip', 'ixt', 'tirs00', 'tirt00', 'tir', 'tis', 'tiu', 'tic', 'tig', 'tit'])
            w = w if len(w) == 6 else w + src.pick(['b01', 'c00', 'd98'])
            return k, 'knes_' + w + src.pick(['+pa1', '+pab', ''])
        if k == 'aws':
            return k, 'aw01_c%02da01+pmeso' % src.int(1, 3)
        if k == 'grib':
            return k, src.pick(['kwbe_yhqa98', 'kwbc_zaqz50', 'kwbg_yhwx20', 'ecmf_hhca89', 'kwbh_yxla98', 'kwbc_lhqa98', 'kwbg_yaqz01']) + '+grib'
        if k == 'any':
            return k, '%s_%s%s' % (src.pick(STATIONS), self.alnum(src, 6), src.pick(['', '-' + self.alnum(src, 6), '+pirep']))
        conds = src.pick(RULES)[0]
        v = dict(station=None, wmoid=None, awips=None, nawips=None)
        for var, pat in conds:
            s = sample(src, pat)
            if var == 'fname':
                st, _, w = s.partition('_')
                v['station'], v['wmoid'] = st or None, w
            elif var == 'awips1':
                v['awips'] = (s + 'xyz')[:3] + self.alnum(src, src.int(1, 3)) if len(s) <= 3 else s
            elif var == 'station':
                v[var] = (s + self.alnum(src, 4))[:4]
            else:
                v[var] = s
        if v['station'] is None:
            v['station'] = src.pick(STATIONS)
        w = v['wmoid'] or ''
        v['wmoid'] = (w + self.alnum(src, 6 - len(w))) if len(w) < 6 else w
        if v['nawips']:
            return k, '%s_%s+%s' % (v['station'], v['wmoid'], v['nawips'])
        if v['awips'] is None and src.bool(0.7):
            v['awips'] = src.wpick((2, src.pick(['afd', 'zfp', 'svr', 'tor', 'xxx', 'mtr'])), (1, self.alnum(src, 3))) + src.pick(['jua', 'fws', 'a'])
        return k, '%s_%s' % (v['station'], v['wmoid']) + ('-' + v['awips'] if v['awips'] else '')

    def user_rule(self, src):
        conds = [(src.pick(['station', 'wmoid', 'awips1', 'fname', 'STATION']), src.pick(['^k', 'sj', '.', '[0-9]$', 'us', '^(w|f|s)', 'JS', '_sdus', 'x', '^t', 'level2$', '^ti', 'afd|svr']))
                 for _ in range(src.wpick((4, 1), (1, 2), (1, 0)))]
        acts = []
        for _ in range(src.wpick((5, 1), (1, 2), (1, 0))):
            a = src.wpick((5, 'file'), (3, 'noappend'), (2, 'rad'), (2, 'rad2'), (2, 'sat'), (1, 'aws'), (1, 'grib'), (2, 'rad_archive'), (2, 'sat_archive'))
            acts.append((a, src.pick(['my/$rc(station)', 'my/a', 'my/$rc(wmoid1)/x', 'nexrad/my/$rc(station)', 'grib/my', 'warnings']),
                         src.pick(['$ymdh.txt', '${ymd_hm}_x', 'f', '$rc(fname)', '$rc(wmotime).$rc(WMOID)', 'list2', 'zz'])))
        return dict(conds=conds, acts=acts, brk=src.bool(0.25), status=src.bool(0.5))

    def ure(self, src):
        return src.pick(['.*', '.*', 'my', '!my', '.*, !nwx', 'nids/jua', '.*,!n0q', '^sat/goesr', '.*,!other', 'craft,nids', 'x', '.*, !upperair,nwx/spc', '^nwx,warnings', ''])

    def gen(self, src):
        t0 = calendar.timegm((src.pick([2024, 2026]), src.int(1, 12), src.int(1, 28), src.draw(24), src.draw(60), src.draw(60)))
        c = dict(now=t0, ccb=src.wpick((5, 1), (1, 0)), sets=[], conf={}, arc=None)
        for k in ('pre', 'site', 'rcd', 'post'):
            if src.bool(0.2):
                c['sets'].append((k, [self.user_rule(src) for _ in range(src.int(1, 4))]))
        c['shipped'] = src.wpick((6, 'defaults'), (1, None)) if 'site' not in [x[0] for x in c['sets']] else None
        if not c['sets'] and not c['shipped']:
            c['shipped'] = 'defaults'
        for k in ('file', 'rad', 'sat', 'grib'):
            if src.bool(0.15):
                c['conf'][k + '_enable'] = src.pick([0, 1, 2])
            if k != 'grib' and src.bool(0.25):
                c['conf'][k + '_regex'] = self.ure(src)
        for k in ('rad_inv_enable', 'sat_inv_enable', 'rad_dirlist_enable', 'rad_latest_enable', 'rad2_dirlist_enable', 'rad2_latest_enable', 'sat_latest_enable'):
            if src.bool(0.1):
                c['conf'][k] = 0
        if src.bool(0.4):
            c['conf']['unprocessed_enable'] = 1
        if src.bool(0.3):
            a = dict(enable=src.wpick((5, 1), (1, 0)))
            for k in ('file', 'sat', 'rad'):
                if src.bool(0.4):
                    a[k + '_enable'] = src.pick([0, 1, 2] if a['enable'] else [0, 1])
                if src.bool(0.3):
                    a[k + '_regex'] = self.ure(src)
            c['arc'] = a
        c['msgs'] = []
        seq = src.int(1, 99999)
        names = [self.name(src) for _ in range(src.int(1, 6))]
        now = t0
        for i in range(src.wpick((4, src.int(1, 6)), (2, src.int(6, 12)))):
            kind, fn = src.pick(names)
            seq += src.int(1, 400)
            now += src.wpick((4, 0), (2, src.int(1, 900)), (1, src.int(900, 5000)))
            w = time.strftime('%d%H%M', time.gmtime(now - src.wpick((3, 0), (2, src.int(0, 5400)))))
            c['msgs'].append(dict(kind=kind, fn=fn, seq=seq, now=now, wmo=w, body=src.data(src.wpick((3, src.int(1, 80)), (1, src.int(3900, 4100)), (1, src.int(9000, 12000)))),
                                  t=src.wpick((2, t0 - src.int(0, 5000)), (1, t0 - src.int(0, 300)))))
        return c

    # ---- model

    def product(self, c, m):
        """file, the file without its control block, without its header lines"""
        pre = CCB if c['ccb'] else b''
        if m['kind'] in ('rad2', 'aws'):
            d, ms = divmod(m['t'], 86400)
            data = (b'AR2V0006.001' + struct.pack('>II', d + 1, ms * 1000) + b'TJUA' if m['kind'] == 'rad2' else b'\x89HDF') + m['body']
            return data, None, None
        st, rest = m['fn'].split('_')
        w = rest.replace('+', '-').split('-')[0]
        head = ('%s %s %s\r\r\n' % (w.upper().ljust(6, 'X')[:6], st.upper(), m['wmo'])).encode()
        if '-' in rest:
            head += (rest.split('-')[1].upper().ljust(6)[:6] + '\r\r\n').encode()
        body = m['body']
        if m['kind'] == 'rad':
            d, s = divmod(m['t'], 86400)
            body = nids_header(19, d + 1, s, 1000, -1, 18000, -66000, 100, None, 2) + body
        elif m['kind'] == 'grib':
            g = time.gmtime(m['t'])
            F = bytearray(40)
            F[0:4], F[7] = b'GRIB', 1
            for o, x in ((4, 7), (5, 84), (6, 211), (12, g.tm_year % 100), (13, g.tm_mon), (14, g.tm_mday), (15, g.tm_hour), (16, g.tm_min), (17, 1), (18, 6)):
                F[8 + o] = x
            body = bytes(F) + body
        return pre + head + body, head + body, body

    def rc(self, c, m):
        st, rest = m['fn'].split('_')
        w, a, n = rest, '', ''
        if '-' in rest:
            w, a = rest.split('-')
        elif '+' in rest:
            w, n = rest.split('+')
        rd = c['conf'].get('rad_enable', 1)
        own = (m['kind'] == 'rad' and rest[4] in '23578' and not a.startswith('nmd') or m['kind'] == 'rad2') and rd
        secs = m['t'] if own else min(nearest(m['wmo'], m['now']))
        f = lambda s: time.strftime(s, time.gmtime(secs))
        rc = dict(station=st, wmoid=w, wmoid1=w[:3], wmoid2=w[3:], awips=a, awips1=a[:3], awips2=a[3:], nawips=n, fname=m['fn'], wmotime=m['wmo'], seconds=str(secs))
        for k in ('station', 'wmoid', 'awips', 'awips1'):
            rc[k.upper()] = rc[k].upper()
        v = dict(ymdh=f('%Y%m%d%H'), ymd=f('%Y%m%d'), ymd_hm=f('%Y%m%d_%H%M'), ymd_h=f('%Y%m%d_%H'), ym=f('%Y%m'), yyyy=f('%Y'))
        return rc, v, secs

    def sub(self, t, rc, v):
        t = re.sub(r'\$rc\((\w+)\)', lambda x: rc[x.group(1)], t)
        return re.sub(r'\$(?:\{(\w+)\}|([a-z0-9_]+))', lambda x: v[x.group(1) or x.group(2)], t)

    def simulate(self, c, site, paths):
        C = dict(file_enable=1, rad_enable=1, sat_enable=1, grib_enable=1, file_regex='.*', rad_regex='.*', sat_regex='.*', grib_regex='.*', rad_inv_enable=1, sat_inv_enable=1,
                 rad_dirlist_enable=1, rad_latest_enable=1, rad2_dirlist_enable=1, rad2_latest_enable=1, sat_latest_enable=1, unprocessed_enable=0)
        C.update(c['conf'])
        A = dict(enable=0, file_enable=1, sat_enable=1, rad_enable=1, file_regex='.*', sat_regex='.*', rad_regex='.*')
        A.update(c['arc'] or {})
        da = site.var + '/noaaport/data/digatmos'
        F, INV, ARC, AINV = {}, {}, {}, {}
        st = dict(off=0, multi=0)

        def on(kind, d):
            r = C[kind + '_enable'] and wild(C[kind + '_regex'], d)
            st['off'] += not r
            return r

        def act(a, d, n, m, rc, secs):
            data, plain, body = self.product(c, m)
            p = d + '/' + n
            if a in ('file', 'noappend', 'grib'):
                if not on('grib' if a == 'grib' else 'file', d):
                    return
                if A['file_enable'] != 2:
                    out = gpk(m['seq'], plain)
                    st['multi'] += p in F and a != 'noappend'
                    F[p] = (F.get(p, b'') if a != 'noappend' else b'') + out
                if a == 'file' and A['file_enable'] != 0:
                    archive('file', d, n + '.tar', m, rc, secs)
            elif a in ('rad', 'rad2'):
                if not on('rad', d) or A['rad_enable'] == 2:
                    return
                l = '2' if a == 'rad2' else ''
                F[p] = data if l else gpk(m['seq'], plain)
                if C['rad_inv_enable']:
                    inv('nexrad', d, p, m)
                if C['rad%s_latest_enable' % l]:
                    F[d + '/latest'] = ('link', n)
                if C['rad%s_dirlist_enable' % l]:
                    here = sorted({x[len(d) + 1:].split('/')[0] for x in F if x.startswith(d + '/')} - {'list', 'dir.list', 'latest'})
                    if l:
                        here = ['%d %s' % (len(F[d + '/' + x]) if d + '/' + x in F else -1, x) for x in here]
                    F[d + '/list'] = ('\n'.join(here) + '\n').encode()
                    F.setdefault(d + '/dir.list', ('link', 'list'))
            elif a in ('sat', 'aws'):
                if not on('sat', d) or A['sat_enable'] == 2:
                    return
                F[p] = data if a == 'aws' else body
                if C['sat_inv_enable']:
                    inv('sat', d, p, m)
                if C['sat_latest_enable']:
                    F[d + '/latest'] = ('link', n)
            else:
                archive(a[:3], d, n, m, rc, secs)

        def inv(sub, d, p, m):
            k = '%s/%s/%s' % (sub, time.strftime('%Y%m%d%H', time.gmtime(m['now'])), d.replace('/', '.'))
            INV[k] = INV.get(k, '') + '%s/%s\n' % (da, p)

        def archive(kind, d, n, m, rc, secs):
            if not A['enable'] or not A[kind + '_enable'] or not wild(A[kind + '_regex'], d):
                return
            sd = time.strftime('%Y%m%d', time.gmtime(secs))
            k = '%s/%s/%s' % (sd, d, n)
            st['multi'] += k in ARC
            ARC.setdefault(k, []).append((os.path.basename(paths[m['seq']]), self.product(c, m)[0]))
            k = sd + time.strftime('/%H%M.inv', time.gmtime(secs))
            AINV[k] = AINV.get(k, '') + ','.join([rc['station'], rc['wmoid'], rc['awips'], rc['wmotime'], rc['seconds'], os.path.basename(paths[m['seq']]),
                                                  site.var + '/noaaport/archive/data/digatmos', sd, d, n]) + '\n'

        order = [s for s in c['sets'] if s[0] == 'pre'] + [s for s in c['sets'] if s[0] == 'site'] + ([('shipped', None)] if c['shipped'] else []) + \
            [s for s in c['sets'] if s[0] == 'rcd'] + [s for s in c['sets'] if s[0] == 'post']
        for m in c['msgs']:
            rc, v, secs = self.rc(c, m)
            status = [1]
            for k, rules in order:
                if k == 'shipped':
                    self.shipped(m, rc, v, secs, C, A, act, status)
                    continue
                for r in rules:
                    if not all(re.search(p, rc[x]) for x, p in r['conds']):
                        continue
                    if r['status']:
                        status[0] = 0
                    for a, d, n in r['acts']:
                        if a in ('sat', 'file', 'noappend', 'grib', 'rad') and m['kind'] in ('rad2', 'aws'):
                            continue
                        act(a, self.sub(d, rc, v), self.sub(n, rc, v), m, rc, secs)
                    if r['brk']:
                        break
        return F, INV, ARC, AINV, st

    def shipped(self, m, rc, v, secs, C, A, act, status):
        w, do = rc['wmoid'], lambda a, d, n: (status.__setitem__(0, 0), act(a, d, n, m, rc, secs))
        if re.search('^sdus[235678]', w):
            do('rad', 'nexrad/nids/%s/%s' % (rc['awips2'], rc['awips1']), '%s_%s.nids' % (rc['awips'], v['ymd_hm']))
            do('rad_archive', 'nexrad/nids/' + rc['awips2'], v['ymdh'] + '.nids.tar')
        if re.search('^sdus[2-8]', w):
            return
        if re.search('^level2', w):
            do('rad2', 'nexrad/craft/' + rc['STATION'], '%s_%s' % (rc['STATION'], v['ymd_hm']))
            do('rad_archive', 'nexrad/craft/' + rc['station'], v['ymdh'] + '.craft.tar')
            return
        sd = '%s/%s/%s' % (rc['wmoid1'], w, rc['nawips'])
        sd = sd.rstrip('/')
        for pat, d, ext in (('^tip', 'viirs', '.viirs'), ('^ixt', 'other', ''), ('^tir[st]00', 'glm', '.glm'), ('^ti[rsu]', 'goesr', '.goesr'), ('^ti', 'other', '')):
            if re.search(pat, w):
                do('sat', 'sat/%s/%s' % (d, sd), '%s%s_%s%s' % (w, rc['nawips'], v['ymd_hm'], ext))
                do('sat_archive', 'sat/%s/%s' % (d, sd), '%s%s_%s%s.tar' % (w, rc['nawips'], v['ymdh'], ext))
                return
        if re.search('aw01', rc['station']):
            do('aws', 'sat/goesr/g19/%s/%s' % (rc['nawips'], rc['wmoid1']), 'abi-l1b-radf-m6%s-g19-%s_%s.asc' % (rc['wmoid1'], rc['nawips'], v['ymd_hm']))
            do('sat_archive', 'sat/goesr/g19/' + rc['wmoid1'], 'abi-l1b-radf-m6%s-g19-%s_%s.asc.tar' % (rc['wmoid1'], rc['nawips'], v['ymdh']))
            return
        if rc['nawips'] == 'grib' and C['grib_enable'] and m['kind'] == 'grib':
            ymdh = time.strftime('%Y%m%d%H', time.gmtime(m['t']))
            model = 'nam' if rc['station'] == 'kwbe' else 'gfs' if rc['station'] == 'kwbc' else 'rap' if rc['station'] == 'kwbg' else None
            for s, pat, d in (('^kwb', '^([yz]).(q.)', None), ('kwbg', '^(y).(w.)', 'ruc2'), ('ecmf', '^(h).([a-l].)', 'ecmwf'), ('kwbh', '^(y).(l.)', 'mrf')):
                if re.search(s, rc['station']) and re.search(pat, w):
                    # the name of the model comes from filters-gribid.def, except for ruc2
                    do('grib', 'grib/%s/%s' % (d or m['model'], ymdh), '%s_211_%s_6h.grb' % (d if d == 'ruc2' else m['model'], ymdh))
                    return
        if rc['nawips'].startswith('grib'):
            return
        for conds, d, n, append, stop in RULES:
            g = [re.search(p, rc[x]) for x, p in conds]
            if not all(g):
                continue
            vv = dict(v)
            if g[0].re.groups:
                vv['s1'] = g[0].group(1) or ''
            do('file' if append else 'noappend', self.sub(d, rc, vv), self.sub(n, rc, vv))
            if stop:
                return
        if C['unprocessed_enable'] == 1 and status[0] == 1:
            act('noappend', 'unprocessed/' + rc['station'], rc['fname'], m, rc, secs)

    # ---- execution

    def rules_text(self, rules):
        t = ''
        for r in rules:
            t += 'lappend cond {\n  %s\n}\n' % (' && '.join('[regexp {%s} $rc(%s)]' % (p, x) for x, p in r['conds']) or '1')
            t += 'lappend action {\n'
            if r['status']:
                t += '  set rc_status 0;\n'
            for a, d, n in r['acts']:
                raw = '($rc(wmoid1) eq "lev" || $rc(station) eq "aw01")'
                cmd = {'file': 'filter_file rc', 'noappend': 'filter_file_noappend', 'rad': 'filter_rad', 'rad2': 'filter_rad', 'sat': 'filter_sat', 'aws': 'filter_sat', 'grib': 'filter_grib',
                       'rad_archive': 'filter_rad_archive rc', 'sat_archive': 'filter_sat_archive rc'}[a]
                call = '%s $rc(seq) $rc(fpath) "%s" "%s"%s' % (cmd, d, n, ' 1' if a in ('rad2', 'aws') else '')
                t += '  if {!%s} { %s }\n' % (raw, call) if a in ('sat', 'file', 'noappend', 'grib', 'rad') else '  %s;\n' % call
            t += ('  break;\n' if r['brk'] else '') + '}\n'
        return t

    def run(self, c, ctx):
        site = Site(ctx, ctx.dir(), 'set common(ccbsaved) %d;\nset filterslib(ccbsaved) %d;\nset env(PATH) {%s/bin:%s/libexec/nbsp:/usr/bin:/bin};\n' %
                    (c['ccb'], c['ccb'], ctx.src['inst'], ctx.src['inst']))
        site.sample('dafilter.rc', 'dafilter.conf', 'archive.conf')
        for x in ('data/digatmos', 'data/inv/digatmos', 'archive/data/digatmos', 'archive/inv/digatmos'):
            os.makedirs(site.var + '/noaaport/' + x)
        for k, x in c['sets']:
            site.put({'pre': 'etc/dafilterpre.rc', 'post': 'etc/dafilterpost.rc', 'site': 'etc/site/dafilter.rc', 'rcd': 'etc/rc.d/da/a.rc'}[k], self.rules_text(x))
        if c['shipped']:
            site.put('etc/defaults/dafilter.rc', open(site.inst + '/etc/nbsp/dafilter.rc-defaults', 'rb').read())
        site.put('etc/site/dafilter.conf', ''.join('set dafilter(%s) {%s};\n' % x for x in sorted(c['conf'].items())))
        if c['arc']:
            site.put('etc/site/archive.conf', ''.join('set archive(da,%s) {%s};\n' % x for x in sorted(c['arc'].items())))
        models = {'kwbe': 'nam', 'kwbc': 'gfs', 'kwbg': 'rap', 'ecmf': 'k-ecmf', 'kwbh': 'k-kwbh'}
        site.put('etc/filters-gribid.def', ''.join('set filtersgribid(model,7,%s) %s\n' % x for x in models.items() if x[1][1] != '-') + 'set filtersgribid(ftu,1,1) h;\nset filtersgribid(ftu,unknown) u\n')
        inp, paths = [], {}
        for m in c['msgs']:
            m['model'] = models.get(m['fn'][:4])
            rel = 'spool/%s/%s.%s_%08d' % (m['fn'][:4], m['fn'], m['wmo'], m['seq'])
            paths[m['seq']] = site.put(rel, self.product(c, m)[0])
            inp.append('@now %d\n%d 1 0 0 5 %s %s\n' % (m['now'], m['seq'], m['fn'], paths[m['seq']]))
        out = Outcome()
        out.evals = len(c['msgs'])
        F, INV, ARC, AINV, st = self.simulate(c, site, paths)
        out.nontrivial = len(F) + len(ARC) > 2 and (st['multi'] > 0 or st['off'] > 0)
        out.tags = sorted({m['kind'] for m in c['msgs']} | ({'archive'} if ARC else set()) | {'set ' + x[0] for x in c['sets']} | ({'shipped rules'} if c['shipped'] else set()) | ({'appended'} if st['multi'] else set()))
        r = site.script('dafilter', stdin=''.join(inp).encode(), now=c['now'])
        log = (r.out + r.err)[-500:]
        if r.crash or r.code:
            out.bad = 'dafilter: %s (status %s): %r' % (r.crash, r.code, log)
            return out
        for what, want, rel in (('data', F, 'data/digatmos'), ('inventory', INV, 'data/inv/digatmos'), ('archive', ARC, 'archive/data/digatmos'), ('archive inventory', AINV, 'archive/inv/digatmos')):
            got = {k: x for k, x in site.files('var/noaaport/' + rel).items() if x != ('dir',)}
            if what == 'archive':
                for k in got:
                    try:
                        with tarfile.open(fileobj=io.BytesIO(got[k])) as t:
                            got[k] = [(i.name, t.extractfile(i).read()) for i in t.getmembers()]
                    except (tarfile.TarError, AttributeError) as e:
                        got[k] = str(e)
            want = {k: x.encode() if isinstance(x, str) else x for k, x in want.items()}
            for k in sorted(set(got) | set(want)):
                if got.get(k) != want.get(k):
                    short = lambda x: x if x is None or isinstance(x, tuple) else '%d bytes %r' % (len(x), x[:200]) if isinstance(x, bytes) else repr(x)[:200]
                    out.bad = '%s file %s: %s, expected %s (products %s; %r)' % (what, k, short(got.get(k)), short(want.get(k)), [(m['seq'], m['fn'], m['wmo']) for m in c['msgs']][:6], log)
                    return out
        return out


CHECK = Check()
