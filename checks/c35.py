"""What the rules of a filter see of a product: the rc(...) variables of the filter library, through dafilter."""
import calendar, os, struct, time, zlib
from c23 import nids_header
from pbt import Outcome
from tclinst import Site

CCB = b'@\x0c' + b'\0' * 22
EMPTY = ['gribcenternum', 'gribsubcnum', 'gribmodelnum', 'gribmodel', 'gribmodelldm', 'gribmodelgridldm', 'gribreftime', 'gribymdh', 'gribymd',
         'gribforecasttimeu', 'gribforecasttime1', 'gribforecasttime2', 'gribforecasttimeri', 'gribforecasttime', 'gribforecasttimev',
         'gribforecasttimehhh', 'radlat', 'radlon', 'radheight', 'radseconds', 'radmode', 'radcode', 'rad2seconds', 'rad2site']
STATIONS = ['kwbc', 'kwbe', 'kwbg', 'tjsj', 'kfwd', 'ecmf', 'egrr', 'k1z9', 'cwao', 'kwns']
DUMP = '''
lappend cond {1}
lappend action {
  set f [open %s a];
  foreach k [lsort [array names rc]] { puts $f "$k [binary encode hex $rc($k)]"; }
  puts $f "local,ymd_hm [binary encode hex $ymd_hm]";
  puts $f "local,ymdhm [binary encode hex $ymdhm]";
  puts $f "local,yyyy [binary encode hex $yyyy]";
  puts $f "-";
  close $f;
}
'''


def mdays(y, m):
    return calendar.monthrange(y, m)[1]


def nearest(t, now):
    """The times ddhhmm of this month, the one before or the next that are nearest to now; now itself if there is none."""
    d, h, m = int(t[:2]), int(t[2:4]), int(t[4:6])
    g = time.gmtime(now)
    c = []
    for k in (-1, 0, 1):
        y, mo = g.tm_year, g.tm_mon + k
        if mo == 0:
            y, mo = y - 1, 12
        elif mo == 13:
            y, mo = y + 1, 1
        if 1 <= d <= mdays(y, mo):
            c.append(calendar.timegm((y, mo, d, h, m, 0)))
    if not c:
        return {now}
    best = min(abs(x - now) for x in c)
    return {x for x in c if abs(x - now) == best}


class Check:
    pid = 'C35'
    title = 'Rules see each product as announced, with the time nearest to its arrival'
    parts = ['cli', 'inst']
    drivers = []
    quick, thorough = 1800, 60000
    rule = ('a case counts as non-trivial when at least one product had fields of its own (a radar header, a grib or its forecast time) and another '
            'took its time from its name')
    assumptions = ['lower case names as the server makes them', 'day 01 to 31 or 32 to 99, hours and minutes that exist',
                   'the grib edition 1 year is one of the present century']

    # ---- generation

    def name(self, src):
        st = src.wpick((3, src.pick(STATIONS)), (1, ''.join(src.pick('abkz019') for _ in range(4))))
        k = src.wpick((4, 'text'), (2, 'rad'), (1, 'rad2'), (4, 'grib'), (1, 'plain'), (1, 'sat'))
        t = src.pick('yzhoelmab') + src.pick('pcaz') + src.pick('dqabcz') + src.pick('z9') + src.pick('89') + src.pick('08')
        if k == 'text':
            return k, '%s_%s-%s' % (st, src.pick(['saus70', 'fxca62', 'wfus55', 'sxus08', 'level1', 'sdus41', 'nxus60']), src.pick(['mtrjax', 'afdsju', 'torb', 'zfp', 'n0r', 'rr1abc', 'a']))
        if k == 'rad':
            return k, '%s_sdus%s%d-%s%s' % (st, src.wpick((6, src.pick('23578')), (1, src.pick('46'))), src.draw(10), src.wpick((5, src.pick(['n0r', 'n1p', 'n0q', 'ptat'[:3]])), (1, 'nmd')),
                                            src.pick(['jua', 'fws', 'jx']))
        if k == 'rad2':
            return k, '%s_level2' % st
        if k == 'grib':
            return k, '%s_%s+%s' % (st, t, src.wpick((6, 'grib'), (1, 'grib2'), (1, 'bufr')))
        if k == 'sat':
            return k, src.pick(['knes_tirs00', 'knes_tigb01', 'knes_ixtn89']) + src.pick(['', '+pa1'])
        return k, '%s_%s' % (st, src.pick(['sabz31', 'fpcn11', t]))

    def body(self, src):
        n = src.wpick((4, src.int(0, 60)), (2, src.int(470, 560)), (1, src.int(561, 4000)))
        kind = src.wpick((5, 'text'), (2, 'odd'), (1, 'bin'))
        if kind == 'text':
            return bytes(src.pick(b'AZ09 az.,\r\n\t=/~!') for _ in range(min(n, 40))).ljust(n, b'x')
        b = bytearray(b'T' * n)
        if kind == 'odd' and n:
            for _ in range(src.int(1, 3)):
                i = src.wpick((3, src.draw(n)), (2, min(n - 1, src.int(486, 489))), (2, min(n - 1, src.int(509, 513))))
                b[i] = src.pick([1, 3, 0x1e, 0x17, 0, 2, 4, 0x1b, 0x1f, 0x7f, 0x0b, 0x0c])
            return bytes(b)
        return bytes(src.draw(128) for _ in range(min(n, 64)))

    def grib_params(self, src):
        return dict(center=src.pick([7, 8, 9, 74, 98, 7, 200]), sub=src.pick([0, 0, 1, 4, 255]), model=src.pick([0, 84, 96, 151, 180]), grid=src.pick([0, 211, 255, 3]),
                    yy=src.int(0, 37), date=[src.int(1, 12), src.int(1, 28), src.int(0, 23), src.int(0, 59)], ftu=src.pick([0, 1, 1, 2, 10, 200]),
                    p1=src.pick([0, 0, 6, 12, 120, 255]), p2=src.pick([0, 0, 6, 18, 255]), tri=src.pick([0, 2, 10]), ed=src.wpick((5, 1), (5, 2), (1, 3), (1, 0)),
                    good=src.wpick((9, True), (1, False)))

    def gen(self, src):
        y, m = src.pick([2003, 2024, 2023, 2026, 2031]), src.int(1, 12)
        t0 = calendar.timegm((y, m, 1, 0, 0, 0)) + src.wpick((3, src.int(0, 86400 * 31)), (3, src.pick([-86400, -1, 0, 59, 86399]) + src.pick([0, 0, 86400 * 14, 86400 * 15, 86400 * 16])))
        c = dict(ccb=src.wpick((4, 1), (1, 0)), files=[x for x in ['pre', 'post', 'dflt', 'site', 'a.rc', 'b.rc', 'c.txt'] if src.bool(0.35)], msgs=[],
                 en=src.wpick((6, (None, None)), (1, (0, None)), (1, (None, 0)), (1, (0, 0))), tz=src.pick(['UTC', 'UTC', 'America/Puerto_Rico', 'Asia/Tokyo']))
        ent = {}
        for i in range(src.int(0, 8)):
            ce = src.pick([7, 8, 9, 74, 200])
            k = src.wpick((2, 'model,%d,%s' % (ce, src.pick(STATIONS[:3]))), (2, 'model,%d,%d,%d' % (ce, src.pick([0, 1, 4]), src.pick([0, 84, 96]))), (2, 'model,%d,%d' % (ce, src.pick([0, 84, 151]))),
                          (1, 'subc,%d,%d' % (ce, src.pick([0, 1, 4]))), (1, 'subc,%d,%s' % (ce, src.pick(STATIONS[:3]))), (2, 'modelldm,%d,%d' % (ce, src.pick([0, 84, 96]))), (2, 'center,%d' % ce),
                          (3, 'gridid,yz,%s' % src.pick('dqabcz')), (2, 'gridid,%s,%s' % (src.pick('hoe'), src.pick('dqabcz'))),
                          (2, 'gridid,%s,%s,%s' % (src.pick(STATIONS[:3]), src.pick(['yz', 'e']), src.pick('dqabcz'))))
            ent[k] = 'v%d' % i
        c['ent'] = ent
        c['ftu'] = {k: src.pick(['h', 'h', 'm', 'd', '3h']) for k in ['0,1', '1,1', '2,1', '0,2', '1,2', '10,2'] if src.bool(0.7)}
        now = t0
        for i in range(src.wpick((5, src.int(1, 6)), (1, src.int(7, 14)))):
            kind, fn = self.name(src)
            now += src.wpick((3, 0), (2, src.int(1, 7200)), (1, src.int(0, 86400 * 20)))
            r = src.wpick((5, now - src.int(0, 7200)), (3, now + src.int(-86400 * 18, 86400 * 18)), (1, now + src.int(0, 3600)))
            g = time.gmtime(r)
            dd = '%02d%02d%02d' % (src.wpick((9, g.tm_mday), (1, src.pick([29, 30, 31, 32, 99]))), g.tm_hour, g.tm_min)
            c['msgs'].append(dict(kind=kind, fn=fn, now=now, seq=src.wpick((5, src.int(1, 99999)), (1, src.int(10000000, 4294967295))), type=src.pick([1, 3, 4]), cat=src.draw(10), code=src.draw(120),
                                  idx=src.draw(9), wmo=src.wpick((9, dd), (1, None)), ext=src.wpick((8, ''), (1, '.txt')), meta=src.wpick((6, None), (1, str(src.int(0, 99999))), (1, '77:x:y')),
                                  body=self.body(src), gone=src.bool(0.05), grib=self.grib_params(src), z=src.wpick((5, None), (3, 1), (1, 2)),
                                  nids=dict(code=src.int(1, 200), days=src.int(10000, 24000), secs=src.int(0, 86399), lat=src.int(-90000, 90000), lon=src.int(-180000, 180000), height=src.int(0, 9000), mode=src.pick([0, 1, 2])),
                                  bad=src.bool(0.12), ms=src.int(0, 86399999), julian=src.int(10000, 24000), icao=src.pick(['KJGX', 'TJUA', 'k1z9'])))
        return c

    # ---- products and model

    def product(self, c, m):
        """the spool file and what of it is not in its name"""
        pre = CCB if c['ccb'] else b''
        v = {}
        st, rest = m['fn'].split('_')
        w = rest.replace('+', '-').split('-')[0]
        head = ('%s %s %s\r\r\n' % (w.upper().ljust(6, 'x')[:6], st.upper(), m['wmo'] or '010000')).encode()
        if m['kind'] == 'rad':
            a = (rest.split('-')[1].upper().ljust(6)[:6] + '\r\r\n').encode()
            n = m['nids']
            h = nids_header(n['code'], n['days'], n['secs'], 1000, -1, n['lat'], n['lon'], n['height'], None, n['mode'])
            if m['bad']:
                h = nids_header(n['code'], n['days'], n['secs'], 1000, 5, n['lat'], n['lon'], n['height'], None, n['mode'])
            data = pre + head + a + h + m['body']
            if m['z'] and c['ccb']:
                raw = pre + head + a + h
                data = pre + head + a + b''.join(zlib.compress(x, 9) for x in ([raw] if m['z'] == 1 else [raw, b'second' * 50]))
            if not m['bad']:
                t = (n['days'] - 1) * 86400 + n['secs']
                v = dict(radlat='%.3f' % (n['lat'] / 1000.0), radlon='%.3f' % (n['lon'] / 1000.0), radheight=str(n['height']), radseconds=str(t), radmode=str(n['mode']), radcode=str(n['code']))
            return data, v
        if m['kind'] == 'rad2':
            data = b'AR2V0006.001' + struct.pack('>II', m['julian'], m['ms']) + m['icao'].encode() + m['body']
            if m['bad']:
                return data[:20], {}
            return data, dict(rad2seconds=str((m['julian'] - 1) * 86400 + m['ms'] // 1000), rad2site=m['icao'].lower())
        if m['kind'] == 'grib':
            g = m['grib']
            d = g['date']
            if not g['good']:
                return pre + head + b'GRAB' + bytes(40), {}
            if g['ed'] != 2:
                F = bytearray(40)
                F[0:4], F[7] = b'GRIB', g['ed']
                for o, x in ((4, g['center']), (25, g['sub']), (5, g['model']), (6, g['grid']), (12, g['yy']), (13, d[0]), (14, d[1]), (15, d[2]), (16, d[3]), (17, g['ftu']), (18, g['p1']), (19, g['p2']), (20, g['tri'])):
                    F[8 + o] = x
                return pre + head + bytes(F) + m['body'], None
            s1 = bytearray(21)
            s1[0:5] = struct.pack('>IB', 21, 1)
            s1[5:9] = struct.pack('>HH', g['center'], g['sub'])
            s1[12:14] = struct.pack('>H', 2000 + g['yy'])
            s1[14:18] = bytes(d)
            s4 = bytearray(34)
            s4[0:5] = struct.pack('>IB', 34, 4)
            s4[13], s4[17] = g['model'], g['ftu']
            s4[18:22] = struct.pack('>I', g['p1'])
            return pre + head + b'GRIB\0\0\0\2' + bytes(8) + bytes(s1) + bytes(s4) + m['body'], None
        return pre + head + m['body'], {}

    def grib_vars(self, c, m):
        """the grib variables; gribstatus 1 when it cannot be told what it is"""
        g = m['grib']
        if not g['good']:
            return dict(gribstatus='1')
        if g['ed'] not in (1, 2):
            return dict(gribstatus='1', gribedition=str(g['ed']))
        st, w = m['fn'].split('_')[0], m['fn'].split('_')[1].split('+')[0]
        e, ce = c['ent'], g['center']
        grid = str(g['grid']) if g['ed'] == 1 else '0'
        if g['ed'] == 2:
            k = None
            if w[0] in 'lmyz':
                if st.startswith('kwb'):
                    k = e.get('gridid,%s,yz,%s' % (st, w[2]))
                k = k or e.get('gridid,yz,%s' % w[2])
            elif w[0] in 'hoe':
                if w[0] == 'e' and st.startswith('kwb'):
                    k = e.get('gridid,%s,e,%s' % (st, w[2]))
                k = k or e.get('gridid,%s,%s' % (w[0], w[2]))
            grid = k or '0'
        name = 'k-' + st
        for k in ('model,%d,%s' % (ce, st), 'model,%d,%d,%d' % (ce, g['sub'], g['model']), 'model,%d,%d' % (ce, g['model']), 'subc,%d,%d' % (ce, g['sub']), 'subc,%d,%s' % (ce, st)):
            if k in e:
                name = e[k]
                break
        if 'modelldm,%d,%d' % (ce, g['model']) in e:
            ldm = e['modelldm,%d,%d' % (ce, g['model'])]
        else:
            ldm = '%s_%d' % (e.get('center,%d' % ce, str(ce)), g['model'])
        y = (time.gmtime().tm_year // 100 * 100 if g['ed'] == 1 else 2000) + g['yy']
        ref = '%04d%02d%02d%02d%02d' % tuple([y] + g['date'])
        u = c['ftu'].get('%d,%d' % (g['ftu'], g['ed']), 'u')
        p2, tri = (g['p2'], g['tri']) if g['ed'] == 1 else (0, 0)
        ft = p2 or g['p1']
        o = dict(gribedition=str(g['ed']), gribmodel=name, gribmodelldm=ldm, gribgrid=grid, gribreftime=ref, gribcenternum=str(ce), gribsubcnum=str(g['sub']), gribmodelnum=str(g['model']),
                 gribymdh=ref[:10], gribymd=ref[:8], gribmodelgridldm='%s/#%s' % (ldm, grid), gribforecasttimeu=u, gribforecasttime1=str(g['p1']), gribforecasttime2=str(p2),
                 gribforecasttimeri=str(tri), gribforecasttimev=str(ft), gribforecasttime='%d%s' % (ft, u))
        if u == 'h':
            o['gribforecasttimehhh'] = '%03d' % ft
        return o

    def expect(self, c, m, data, own, path, secs):
        st, rest = m['fn'].split('_')
        w, a, n = rest, '', ''
        if '-' in rest:
            w, a = rest.split('-')
        elif '+' in rest:
            w, n = rest.split('+')
        v = {k: '' for k in EMPTY}
        v.update(gribedition='0', gribstatus='0', gribgrid='0')
        v.update(seq=str(m['seq']), type=str(m['type']), cat=str(m['cat']), code=str(m['code']), npchidx=str(m['idx']), fname=m['fn'], fpath=path, fbasename=os.path.basename(path), station=st, wmoid=w,
                 wmoid1=w[:3], wmoid2=w[3:], awips=a, awips1=a[:3], awips2=a[3:], nawips=n, wmotime=m['wmo'] or '', metadata=m['meta'] or '')
        v['meta,fsize'] = (m['meta'] or '').split(':')[0]
        for k in ('station', 'wmoid', 'wmoid1', 'wmoid2', 'awips', 'awips1', 'awips2', 'nawips'):
            v[k.upper()] = v[k].upper()
        v['WMOHEADER'] = '%s %s %s' % (w.upper(), st.upper(), m['wmo']) if m['wmo'] else ''
        nobody = w.startswith(('sdus', 'ti', 'ixt')) or n.startswith(('grib', 'bufr')) or m['gone']
        b = b'' if nobody else data[:512]
        v['body'] = b.hex()
        t = b[24:] if c['ccb'] else b
        v['txtflag'] = '1' if t and all(33 <= x < 127 or x in b' \t\n\v\f\r\x01\x03\x1e\x17' for x in t) else '0'
        if own:
            v.update(own)
        g = time.gmtime(secs)
        v['seconds'] = str(secs)
        f = lambda s: time.strftime(s, g)
        v.update(ymdhm=f('%Y%m%d%H%M'), yyyy=f('%Y'), m=f('%m'), d=f('%d'), H=f('%H'), M=f('%M'), ymd=f('%Y%m%d'), hm=f('%H%M'), ymd_hm=f('%Y%m%d_%H%M'), ymd_h=f('%Y%m%d_%H'), ymdh=f('%Y%m%d%H'), ym=f('%Y%m'))
        v['local,ymd_hm'], v['local,ymdhm'], v['local,yyyy'] = v['ymd_hm'], v['ymdhm'], v['yyyy']
        return v

    # ---- execution

    def run(self, c, ctx):
        site = Site(ctx, ctx.dir(), 'set common(ccbsaved) %d;\nset filterslib(ccbsaved) %d;\nset env(PATH) {%s/bin:%s/libexec/nbsp:/usr/bin:/bin};\n' %
                    (c['ccb'], c['ccb'], ctx.src['inst'], ctx.src['inst']))
        site.sample('dafilter.rc')
        os.makedirs(site.var + '/noaaport/data/digatmos')
        site.put('etc/filters-gribid.def', ''.join('set filtersgribid(%s) %s;\n' % x for x in sorted(c['ent'].items())) +
                 ''.join('set filtersgribid(ftu,%s) %s;\n' % x for x in sorted(c['ftu'].items())) + 'set filtersgribid(ftu,unknown) u;\n')
        conf = ''
        for k, x in zip(('grib', 'rad'), c['en']):
            if x is not None:
                conf += 'set dafilter(%s_enable) %d;\n' % (k, x)
        if conf:
            site.sample('dafilter.conf')
            site.put('etc/site/dafilter.conf', conf)
        where = {'pre': 'etc/dafilterpre.rc', 'post': 'etc/dafilterpost.rc', 'dflt': 'etc/defaults/dafilter.rc', 'site': 'etc/site/dafilter.rc'}
        files = c['files'] if [x for x in c['files'] if x not in ('c.txt',)] else ['site']
        for x in files:
            site.put(where.get(x, 'etc/rc.d/da/' + x), 'lappend cond {1}\nlappend action {set f [open %s/work/order a]; puts $f {%s}; close $f}\n' % (site.d, x))
        used = [x for x in files if x not in ('c.txt',) and not (x == 'dflt' and 'site' in files)]
        last = [x for x in ('pre', 'site', 'dflt', 'a.rc', 'b.rc', 'post') if x in used][-1]
        with open(site.d + '/' + where.get(last, 'etc/rc.d/da/' + last), 'a') as f:
            f.write(DUMP % (site.work + '/dump'))
        inp, want = [], []
        en = [x is None or x != 0 for x in c['en']]
        nt = [0, 0]
        for i, m in enumerate(c['msgs']):
            data, own = self.product(c, m)
            fb = m['fn'] + ('.%s_%d' % (m['wmo'], m['seq']) if m['wmo'] else '.x') + m['ext']
            p = site.d + '/spool/%02d/%s' % (i, fb)
            if not m['gone']:
                site.put('spool/%02d/%s' % (i, fb), data)
            st, rest = m['fn'].split('_')
            if m['kind'] == 'rad':
                ok = en[1] and rest[4] in '23578' and not rest.split('-')[1].startswith('nmd')
                own = own if ok and not m['gone'] else {}
            elif m['kind'] == 'rad2':
                own = own if en[1] and not m['gone'] else {}
            elif m['kind'] == 'grib':
                own = self.grib_vars(c, m) if en[0] and rest.endswith('+grib') else {}
                if own and m['gone']:
                    own = dict(gribstatus='1')
            secs = nearest(m['wmo'], m['now']) if m['wmo'] else {m['now']}
            t = own.get('radseconds') or own.get('rad2seconds')
            if t:
                secs = {int(t)}
            nt[0] += bool(own)
            nt[1] += not t
            want.append((m, data, own, p, secs))
            inp.append('@now %d\n%d %d %d %d %d %s %s%s\n' % (m['now'], m['seq'], m['type'], m['cat'], m['code'], m['idx'], m['fn'], p, ' ' + m['meta'] if m['meta'] else ''))
        out = Outcome()
        out.evals = len(want)
        out.nontrivial = nt[0] > 0 and nt[1] > 0
        out.tags = sorted({m['kind'] for m in c['msgs']} | {'ccb' if c['ccb'] else 'no ccb'} | ({'own fields'} if nt[0] else set()))
        r = site.script('dafilter', stdin=''.join(inp).encode(), tz=c['tz'], now=c['msgs'][0]['now'])
        if r.crash or r.code:
            out.bad = 'dafilter: %s (status %s): %s' % (r.crash, r.code, (r.err or r.out)[-300:])
            return out
        try:
            got = [dict((x.split(' ', 1) + [''])[:2] for x in b.strip().split('\n')) for b in open(site.work + '/dump').read().split('-\n') if b.strip()]
        except OSError:
            got = []
        log = (r.out + r.err)[-600:]
        if len(got) != len(want):
            out.bad = 'the rules saw %d of %d products: %r' % (len(got), len(want), log)
            return out
        for (m, data, own, p, secs), g in zip(want, got):
            for k in g:
                g[k] = g[k].strip() if k == 'body' else bytes.fromhex(g[k].strip()).decode('latin1')
            ok = sorted(secs)
            s = int(g.get('seconds') or 0)
            if s not in secs:
                out.bad = '%s (%s) that arrived at %d: time %s, expected %s (%r)' % (m['fn'], m['wmo'], m['now'], g.get('seconds'), ok, log)
                return out
            e = self.expect(c, m, data, own, p, s)
            for k in sorted(e):
                if g.get(k) != e[k]:
                    out.bad = '%s: rc(%s) is %r, expected %r (%r)' % (m['fn'], k, (g.get(k) or '')[:120], e[k][:120], log)
                    return out
        # the rule files, in order
        order = open(site.work + '/order').read().split()
        per = [order[i:i + len(used)] for i in range(0, len(order), len(used))] if used else []
        rank = {'pre': 0, 'dflt': 1, 'site': 1, 'a.rc': 2, 'b.rc': 2, 'post': 3}
        for o in per:
            if sorted(o) != sorted(used) or [rank[x] for x in o] != sorted(rank[x] for x in o):
                out.bad = 'the rule files %s were used as %s' % (sorted(used), o)
                return out
        if used and len(order) != len(used) * len(want):
            out.bad = 'the rule files %s were used %d times for %d products' % (sorted(used), len(order), len(want))
        return out


CHECK = Check()
