"""nbspmtrd (metardc) and the metar package: the values of a report."""
import re
from pbt import Outcome
from tclinst import Site

INT = {'-': 'light', '+': 'heavy', 'VC': 'in the vicinity', '': 'moderate'}
DESC = {'MI': 'shallow', 'BC': 'patches', 'DR': 'low drifting', 'BL': 'blowing', 'SH': 'showers', 'TS': 'thunderstorm', 'FZ': 'freezing'}
PREC = {'DZ': 'drizzle', 'RA': 'rain', 'SN': 'snow', 'SG': 'snow grains', 'IC': 'ice crystals', 'PE': 'ice pellets', 'GR': 'hail',
        'GS': 'small hail/snow pellets', 'UP': 'unknown precipitation'}
OBSC = {'BR': 'mist', 'FG': 'fog', 'FU': 'smoke', 'VA': 'volcanic ash', 'DU': 'dust', 'SA': 'sand', 'HZ': 'haze', 'PY': 'spray'}
OTHER = {'PO': 'dust/sand whirls', 'SQ': 'squalls', 'FC': 'funnel cloud_tornado/waterspout', 'SS': 'sand storm', 'DS': 'dust storm'}
ALL = {**DESC, **PREC, **OBSC, **OTHER}
COVER = {'SKC': 'clear', 'CLR': 'clear', 'SCT': 'scattered clouds', 'BKN': 'broken clouds', 'FEW': 'few clouds', 'OVC': 'solid overcast'}
CLOUD = {'': '', 'CU': ' cumulus', 'CB': ' cumulonumbus', 'TCU': ' towering cumulus', 'CI': ' cirrus'}
TYPES = {'METAR': 'Routine Report', 'M': 'Routine Report', 'SPECI': 'Special Report', 'S': 'Special Report', '': 'Report'}
NEUTRAL = ['NOSIG', 'T', 'W', 'MOVG', 'WSHFT', '27', 'FRQ', '60000', '4/012', '53012', 'LTG', 'DSNT', 'E', 'TSNO', 'RVRNO', 'PK', 'WND', '25034/12', '$', 'CHINO',
           '10142', '20100', '70021', 'BECMG', 'PWINO', 'PNO', 'FZRANO', 'VISNO', 'RWY06']
FLAGS = {'PRESFR': 'Pressure falling rapidly.', 'PRESRR': 'Pressure rising rapidly.', 'SNINCR': 'Snow increasing rapidly.'}


def f01(c):
    return '%.1f' % (9.0 / 5.0 * c + 32.0)


def temp(src):
    """(text, value)"""
    v = src.wpick((3, src.int(0, 45)), (2, src.int(0, 10)), (2, -src.int(1, 50)))
    if v == 0 and src.bool(0.3):
        return 'M00', 0
    return ('M%02d' % -v if v < 0 else '%02d' % v), v


class Check:
    pid = 'C33'
    title = 'A decoded METAR report gives the values that the observation states'
    parts = ['inst']
    drivers = []
    quick, thorough = 700, 30000
    rule = 'a case counts as non-trivial when it has at least two reports with wind, temperature, pressure and clouds, one of them with remarks'
    assumptions = ['one group of weather, before the remarks (of several the last counts)', 'begin and end times of weather in minutes',
                   'a temperature and dew point that are both given']

    # ---- generation: a report is a list of tokens and the values that the options print

    def report(self, src):
        v = {}
        t = []
        v['type'] = src.wpick((3, 'METAR'), (2, 'M'), (1, 'SPECI'), (1, 'S'), (1, ''))
        v['st'] = src.pick(['KABC', 'TJSJ', 'K1G4', 'EGLL', 'KRAS', 'CWAM', 'KFGB', 'PAFG'])
        d, h, m = src.int(1, 31), src.int(0, 23), src.int(0, 59)
        v['date'] = ('%02d' % d, '%02d:%02d' % (h, m))
        t += [v['st'], '%02d%02d%02dZ' % (d, h, m)]
        if src.bool(0.3):
            t.append(src.pick(['AUTO', 'COR']))
        v['wind'] = None
        k = src.draw(7)
        if k:
            sp = src.wpick((4, src.int(1, 35)), (1, src.int(36, 130)))
            di = src.pick([0, 10, 80, 90, 100, 360, src.int(0, 36) * 10])
            if k == 1:
                sp, di = 0, 0
            if k == 2:
                di = None
            g = sp + src.int(3, 30) if k > 4 and sp else None
            t.append('%s%02d%sKT' % ('VRB' if di is None else '%03d' % di, sp, '' if g is None else 'G%02d' % g))
            v['wind'] = (di, sp, g)
            if src.bool(0.15):
                t.append('%03dV%03d' % (src.int(0, 36) * 10, src.int(0, 36) * 10))
        v['vis'] = ''
        k = src.draw(8)
        if k == 1:
            t.append('9999')
        elif k == 2:
            w = '%d %d/%d' % (src.int(1, 9), src.pick([1, 3]), src.pick([4, 8, 2]))
            t += (w + 'SM').split()
            v['vis'] = w
        elif k == 3:
            w = '%d/%d' % (src.int(1, 7), src.pick([2, 4, 8, 16]))
            t.append(w + 'SM')
            v['vis'] = w
        elif k == 4:
            t.append('M1/4SM')
            v['vis'] = 'less than 1/4'
        elif k > 4:
            w = '%d' % src.pick([10, 7, src.int(1, 60)])
            t.append(w + 'SM')
            v['vis'] = w
        if src.bool(0.15):
            t.append(src.pick(['R06/1200FT', 'R24L/M0600FT', 'R04R/3000V6000FT', 'R30/P6000FT']))
        v['weather'] = ''
        if src.bool(0.6):
            i = src.pick(['', '-', '+', 'VC', ''])
            k = src.draw(6)
            de, pr, ob, ot = '', [], '', ''
            if k <= 1:
                pr = [src.pick(sorted(PREC))]
            elif k == 2:
                pr = [src.pick(sorted(PREC)) for _ in range(src.int(2, 3))]
            elif k == 3:
                ob = src.pick(sorted(OBSC))
            elif k == 4:
                ot = src.pick(sorted(OTHER))
            if src.bool(0.4) or k == 5:
                de = src.pick(sorted(DESC))
            tok = i + de + ''.join(pr) + ob + ot
            if tok not in INT:
                t.append(tok)
                v['weather'] = ' '.join([INT[i]] + [ALL[x] for x in [de] + pr + [ob, ot] if x])
        v['sky'] = []
        k = src.draw(7)
        if k == 1:
            t.append('CAVOK')
            v['sky'] = ['clear skies, unlimited visibility']
        elif k == 2:
            t.append(src.pick(['CLR', 'SKC']))
            v['sky'] = ['clear']
        elif k > 2:
            for _ in range(src.int(1, 4)):
                c, hh, ty = src.pick(['FEW', 'SCT', 'BKN', 'OVC']), src.pick([8, 10, 90, 100, src.int(1, 300)]), src.wpick((6, ''), (1, 'CB'), (1, 'TCU'), (1, 'CU'), (1, 'CI'))
                t.append('%s%03d%s' % (c, hh, ty))
                v['sky'].append('%s%s %d ft' % (COVER[c], CLOUD[ty], 100 * hh))
        v['temp'] = None
        if src.bool(0.85):
            a, b = temp(src), temp(src)
            t.append('%s/%s' % (a[0], b[0]))
            v['temp'] = (a[1], b[1])
        v['alt'] = None
        k = src.draw(5)
        if k in (1, 2):
            x = src.int(2750, 3120)
            t.append('A%04d' % x)
            v['alt'] = ('A', x)
        elif k > 2:
            x = src.int(930, 1060)
            t.append('Q%04d' % x)
            v['alt'] = ('Q', x)
        v['slp'], v['log'], v['flags'] = '', [], []
        v['rmk'] = src.bool(0.6)
        if v['rmk']:
            t.append('RMK')
            r = []
            if src.bool(0.6):
                r.append(['AO%d' % src.int(1, 2)])
            if src.bool(0.5):
                x = src.int(0, 999)
                r.append(['SLP%03d' % x])
                v['slp'] = '%d.%d' % ((900 if x >= 800 else 1000) + x // 10, x % 10)
            elif src.bool(0.2):
                r.append(['SLPNO'])
            if src.bool(0.3):
                r.append(['P%04d' % src.int(0, 300)])
            if src.bool(0.4):
                r.append(['T%d%03d%d%03d' % (src.draw(2), src.int(0, 400), src.draw(2), src.int(0, 400))])
            for _ in range(src.draw(3)):
                c = src.pick(sorted(ALL))
                s = [('B', src.int(0, 59))] if src.bool(0.6) else [('E', src.int(0, 59))]
                if src.bool(0.4):
                    s.append(('E' if s[0][0] == 'B' else 'B', src.int(0, 59)))
                r.append([c + ''.join('%s%02d' % x for x in s)])
                v['log'] += ['%s %s:  %02d' % (ALL[c], {'B': 'begin', 'E': 'end'}[x[0]], x[1]) for x in s]
            for f in sorted(FLAGS):
                if src.bool(0.08):
                    r.append([f])
                    v['flags'].append(FLAGS[f])
            for _ in range(src.draw(4)):
                r.insert(src.draw(len(r) + 1), [src.pick(NEUTRAL)])
            t += [x for y in r for x in y]
        elif src.bool(0.2):
            t.append('NOSIG')
        v['tok'] = t
        return v

    def gen(self, src):
        c = dict(form=src.pick(['text', 'text', 'html', 'plain', 'tab', 'tabk']), inp=src.pick(['file', 'stdin', 'e']), csv=src.bool(0.25),
                 out=src.bool(0.2), sep=src.wpick((2, ''), (1, '----')), loc=src.wpick((2, ''), (1, 'San Juan, PR')), tag=src.wpick((2, ''), (1, 'h1')))
        n = 1 if c['inp'] == 'e' else src.int(1, 24)
        c['reps'] = [self.report(src) for _ in range(n)]
        for r in c['reps']:
            if src.bool(0.1):
                r['blank'] = '  '
            if c['csv'] and r['type'] in ('METAR', 'SPECI'):
                r['type'] = r['type'][0]
        return c

    # ---- model

    def line(self, v):
        return (v['type'] + ' ' if v['type'] else '') + v.get('blank', ' ').join(v['tok'])

    def values(self, v):
        o = []
        w = v['wind']
        if w:
            if w == (0, 0, None):
                o.append(('Wind', 'Calm'))
            else:
                o.append(('Wind', '%d Mph at %s' % (int(w[1] * 1.1508), 'variable' if w[0] is None else w[0])))
                if w[2] is not None:
                    o.append(('Gust', '%d Mph' % int(w[2] * 1.1508)))
        if v['temp']:
            o += [('Temp', f01(v['temp'][0]) + ' F'), ('Dewp', f01(v['temp'][1]) + ' F')]
        return o

    def hg(self, v):
        a = v['alt']
        return '' if not a else '%d.%02d' % divmod(a[1], 100) if a[0] == 'A' else '%.2f' % (a[1] / 33.8639)

    def rest(self, v):
        o = []
        if v['slp']:
            o.append(('Sea level pressure', v['slp'] + ' mb'))
        if v['vis']:
            o.append(('Visibility', v['vis'] + ' Statute Miles'))
        if v['weather']:
            o.append(('Weather', v['weather']))
        if v['sky']:
            o.append(('Sky', ', '.join(v['sky'])))
        if v['log']:
            o.append(('Weather log', ', '.join(v['log'])))
        order = [FLAGS[k] for k in ('PRESFR', 'PRESRR', 'SNINCR')]
        return o + [('Remarks', x) for x in order if x in v['flags']]

    def text(self, v):
        a = v['alt']
        o = [('Obs', self.line(v)), ('Site', '%s on %sth at %s UTC - %s' % (v['st'], v['date'][0], v['date'][1], TYPES[v['type']]))] + self.values(v)
        if a:
            o.append(('Pressure', self.hg(v) + ' inHg' if a[0] == 'A' else '%d mb' % a[1]))
        return o + self.rest(v)

    def html(self, v):
        o = [('Obs', self.line(v)), ('Date/Time', '%s at %s UTC' % v['date'])] + self.values(v)
        if v['alt']:
            o.append(('Pressure', self.hg(v) + ' inHg'))
        return o + self.rest(v)

    def tab(self, v, knots):
        w, a = v['wind'], v['temp']
        sp = '' if not w else w[1] if knots else int(w[1] * 1.1508)
        return ','.join(str(x) for x in [v['st'].lower(), v['date'][0], v['date'][1], sp, '' if not w or w[0] is None else w[0],
                                         f01(a[0]) if a else '', f01(a[1]) if a else '', self.hg(v), v['slp']])

    # ---- execution

    def run(self, c, ctx):
        site = Site(ctx, ctx.dir())
        form = c['form']
        lines = []
        for v in c['reps']:
            l = self.line(v)
            if c['csv']:
                l = 'a,b,US,1,2,3,4,5,%s,%s' % (v['type'], v.get('blank', ' ').join(v['tok']))
                if not v['type']:
                    v = dict(v)
            lines.append(l)
        args = ['-c'] if c['csv'] else ['-d'] if all(not v['type'] for v in c['reps']) else []
        args += {'text': [], 'html': ['-h'], 'plain': ['-m'], 'tab': ['-t'], 'tabk': ['-t', '-k']}[form]
        if c['sep']:
            args += ['-s', c['sep']]
        if c['loc']:
            args += ['-l', c['loc']]
        if c['tag']:
            args += ['-H', c['tag']]
        if c['out']:
            args += ['-o', site.work + '/out']
        data = '\n'.join(lines) + '\n'
        stdin = b''
        if c['inp'] == 'e':
            args += ['-e', lines[0]]
        elif c['inp'] == 'file':
            args.append(site.put('work/in', data))
        else:
            stdin = data.encode()
        r = site.script('nbspmtrd', args, stdin=stdin)
        if r.crash or r.code != 0:
            return Outcome('nbspmtrd %s: %s' % (lines[:3], r.crash or (r.err + r.out)[-300:]))
        out = (open(site.work + '/out').read() if c['out'] else r.out.decode('latin1'))
        if c['out'] and r.out.strip():
            return Outcome('with -o there is output: %r' % r.out[:100])
        want = []
        for v, l in zip(c['reps'], lines):
            obs = self.line(v)
            if c['csv']:
                obs = '%s %s' % (v['type'], v.get('blank', ' ').join(v['tok']))
            if form in ('tab', 'tabk'):
                want.append(self.tab(v, form == 'tabk'))
            elif form == 'text':
                want += ['%s: %s' % x if x[0] != 'Obs' else 'Obs: ' + obs for x in self.text(v)] + ([c['sep']] if c['sep'] else [])
            else:
                tag = c['tag'] or 'h3'
                head = '<%s>%s %s%s</%s>' % (tag, TYPES[v['type']], v['st'], ' ' + c['loc'] if c['loc'] else '', tag)
                want.append(head)
                for k, x in self.html(v):
                    x = obs if k == 'Obs' else x
                    want.append('<tr><td>%s</td><td>%s</td></tr>' % (k, x) if form == 'html' else '<b>%s</b><br/>%s<br/><br/>' % (k, x))
        norm = lambda s: re.sub(r'\s+', ' ', s).strip()
        got = [norm(x) for x in out.split('\n') if x.strip() and norm(x) not in ('<table border>', '</table>')]
        want = [norm(x) for x in want]
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            return Outcome('nbspmtrd %s: line %d of the output is %s, not %s; of %s' % (args[:4], i, got[i:i + 1], want[i:i + 1], want[max(0, i - 8):i + 1]))
        full = [v for v in c['reps'] if v['wind'] and v['temp'] and v['alt'] and v['sky']]
        o = Outcome(None, len(full) > 1 and any(v['rmk'] for v in full), (form, tuple(len(v['tok']) for v in c['reps'])), [form] + (['csv'] if c['csv'] else []))
        o.evals = len(c['reps'])
        return o


CHECK = Check()
