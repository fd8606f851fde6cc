"""What each master (masterservers, infifo) and each client (clientoptions) is configured with."""
import os
import net, pipe, srv
from pbt import Outcome, hx

NBS = 5
MSETT = ['slave_read_timeout_secs', 'slave_read_timeout_retry', 'slave_reopen_timeout_secs', 'slave_so_rcvbuf',
         'slave_stats_logperiod_secs']
CSETT = ['client_write_timeout_ms', 'client_write_timeout_retry', 'client_reconnect_wait_sleep_secs',
         'client_reconnect_wait_sleep_retry', 'client_queue_read_timeout_ms']
HOSTS = ['a', 'nbsp.uprrp.edu', '10.0.0.1', '10.0.0.10', '110.0.0.1', 'x-1.example.net', 'h' * 70, 'joshua.wxpro.net', '2', '3']
OPTS = ['', 'x', '-', '10x', 'x10', '+', '1.5']
NAMES = ['alpha.example.net', 'a.example.net', 'example.net', 'xalpha.example.net', 'x', 'alpha', '9000']


class Check:
    pid = 'C19'
    title = 'Each master and each client gets the options its own entry gives, the defaults otherwise'
    parts = ['core']
    drivers = ['d_net', 'd_srv']
    quick, thorough = 1500, 60000
    rule = ('a case counts as non-trivial when at least two entries are given, one of them with some but not all of its '
            'options, or when an invalid entry is refused')
    assumptions = ['an option is a decimal number or not a number at all', 'options of clients are positive']

    # ---- generation

    def num(self, src, neg=True):
        return str(src.wpick((4, src.int(1, 99)), (2, src.int(100, 99999)), (1, 2147483647), (1, 0), (1, -1 if neg else 1)))

    def opts(self, src, n=None):
        n = src.draw(6) if n is None else n
        return [self.num(src) if src.bool(0.6) else src.pick(OPTS) for _ in range(n)]

    def entry(self, src):
        w = src.draw(20)
        t = src.wpick((3, '1'), (3, '2'))
        if w < 1:
            return [t]
        if w < 4:
            return [t, src.pick(HOSTS)]
        if w < 8:
            return [t, src.pick(HOSTS), src.wpick((4, str(src.int(1, 65535))), (1, 'nbsp'), (1, ''))]
        if w < 16:
            return [t, src.pick(HOSTS), src.wpick((2, str(src.int(1, 65535))), (2, ''))] + self.opts(src, src.int(1, 5))
        if w < 18:
            return ['3', src.pick(['/var/run/f.fifo', 'f', '/x' * 40])] + self.opts(src)
        bad = src.draw(7)
        if bad == 0:
            return [src.pick(['', 'x', '0', '4', '-1', '1x']), src.pick(HOSTS)]
        if bad == 1:
            return [t, '']
        if bad == 2:
            return [t, src.pick(HOSTS), '2210'] + self.opts(src, 6)
        if bad == 3:
            return ['3']
        if bad == 4:
            return ['3', '']
        if bad == 5:
            return ['3', 'f'] + self.opts(src, 6)
        return [t, '', '2210', '1']

    def gen(self, src):
        if src.bool(0.8):
            text = src.pick(['', '', ' ', '\n', '|', '\n  '])
            ents = []
            for _ in range(src.wpick((1, 0), (12, src.int(1, 6)), (1, 30))):
                e = self.entry(src)
                ents.append(e)
                s = ''
                for i, f in enumerate(e):
                    s += (src.wpick((4, ','), (1, ':')) if i else '') + f
                text += s + ''.join(src.pick('| \t\n') for _ in range(src.wpick((5, 1), (2, src.int(2, 5)))))
            if src.bool(0.4):
                text = text.rstrip('| \t\n')
            return dict(kind='slaves', text=text if src.bool(0.97) else None, feedmode=src.pick([2, 2, 3, 3, 6, 7, 4, 5]),
                        port=src.pick(['2210', '1', 'nbsp', '2210']), infifo=src.wpick((6, '/v/f.fifo'), (1, ''), (1, None)),
                        defaults=[int(self.num(src)) for _ in MSETT])
        n = src.int(1, 4)
        ips = ['127.1.1.%d' % src.pick([1, 2, 10, 11, 12, 100, 101, 110, 111, 120]) for _ in range(n)]
        ips = sorted(set(ips), key=ips.index)
        names, left = {}, list(NAMES)
        for ip in ips:
            if src.bool(0.5):
                names[ip] = left.pop(src.draw(len(left)))
        hosts = ips + sorted(names.values()) + NAMES + ['127.1.1.1', '27.1.1.1', '127.1.1.10', '7.1.1.1', '127.1.1', 'other.net']
        lines, seen = [], set()
        for _ in range(src.int(0, 6)):
            h = src.pick(hosts) if src.bool(0.5) else src.pick(ips + sorted(names.values()))
            if h in seen:
                continue
            seen.add(h)
            lines.append([h] + [str(src.int(200, 20000)) if src.bool(0.6) else src.pick(['', 'x', '-', 'x10'])
                                for _ in range(src.draw(6))])
        return dict(kind='clients', ips=ips, names=names, lines=lines, indent=src.pick(['', '    ', '\t']),
                    lead=src.bool(0.6), tail=src.bool(0.6), null=src.bool(0.05),
                    defaults=[src.int(200, 9000), src.int(1, 5), src.int(1, 60), src.int(1, 2000), src.int(20, 60)])

    # ---- the reference

    def table(self, c):
        """[(type, host, port, infifo, options)] or None: the configuration is refused."""
        text = c['text']
        if c['feedmode'] & 2 and not text:
            return None
        ents = []
        if c['feedmode'] & 4:
            if not c['infifo']:
                return None
            ents.append(['3', c['infifo']])
        if c['feedmode'] & 2:
            for x in '|\t\n':
                text = text.replace(x, ' ')
            ents += [e.replace(':', ',').split(',') for e in text.split(' ') if e]
        if not ents:
            return None
        r = []
        for e in ents:
            t = e.pop(0)
            if t not in ('1', '2', '3') or not e or not e[0]:
                return None
            host = e.pop(0)
            port = ''
            if t != '3' and e:
                port = e.pop(0) or c['port']
            elif t != '3':
                port = c['port']
            if len(e) > 5:
                return None
            o = list(c['defaults'])
            for i, v in enumerate(e):
                if v.lstrip('-').isdigit():
                    o[i] = int(v)
            r.append((int(t), host if t != '3' else '', port, host if t == '3' else '', o))
        return r

    # ---- the check

    def run(self, c, ctx):
        return self.slaves(c, ctx) if c['kind'] == 'slaves' else self.clients(c, ctx)

    def slaves(self, c, ctx):
        d = ctx.dir()
        s = dict(feedmode=c['feedmode'], masterservers=c['text'], slave_masterport=c['port'], infifo=c['infifo'],
                 infifo_grp='', slavestatsfile=d + '/stats', infifo_mode=0o660)
        s.update(zip(MSETT, c['defaults']))
        prog = []
        for k, v in s.items():
            prog.append('set %s %s' % (k, v if isinstance(v, int) else '-' if v is None else hx(v.encode())))
        prog.append('conf')
        r = ctx.drive('d_net', prog, d, 20)
        if r.crash():
            return Outcome(bad=r.crash())
        want = self.table(c)
        got = []
        for l in r.get('slave'):
            f = [bytes.fromhex(x[1:]).decode() if x[0] in 'xX' else x for x in l[2:5]]
            got.append((int(l[1]), f[0], f[1], f[2], [int(x) for x in l[5:10]]))
        st = r.get('conf')[0][0]
        bad = None
        if want is None:
            if st == '0':
                bad = 'an invalid configuration is taken as %s' % got
        elif st != '0':
            bad = 'refused: %r' % c['text']
        elif got != want:
            bad = 'the masters are configured as %s instead of %s' % (got, want)
        elif [int(x) for x in r.get('table')[0]] != [len(want), sum(w[0] == 1 for w in want)]:
            bad = 'table %s' % r.get('table')
        tags = ['slaves', 'refused' if want is None else 'taken']
        nt = want is None or (len(want) > 1 and any(w[4] != c['defaults'] for w in want))
        return Outcome(bad=bad, nontrivial=nt, key=(c['text'], c['feedmode']), tags=tags)

    def clients(self, c, ctx):
        s = dict(zip(CSETT, c['defaults']))
        text = '\n'.join(c['indent'] + ','.join(l) for l in c['lines'])
        text = ('\n' if c['lead'] else '') + text + ('\n' if c['tail'] else '')
        s['clientoptions'] = None if c['null'] else text
        run = srv.Server(ctx, s, before=[['name', ip, hx(n.encode())] for ip, n in c['names'].items()])
        for k, ip in enumerate(c['ips']):
            run.client(k, ip, srv.IDENT[srv.NBS2])
        run.ready(list(range(len(c['ips']))))
        for ip in c['ips']:
            run.op('opts', ip)
        run.marker()
        run.op('srvstop', 8000)
        o = run.run()
        if o.bad:
            return Outcome(bad=o.bad)
        bad, part, n = None, 0, 0
        for ip, got in zip(c['ips'], o.res.get('opts')):
            want = list(c['defaults'])
            for l in c['lines']:
                if l[0] == c['names'].get(ip, ip) and not c['null']:
                    n += 1
                    part += any(x.isdigit() for x in l[1:]) and not all(x.isdigit() for x in l[1:6]) or len(l) < 6
                    for i, x in enumerate(l[1:6]):
                        if x.isdigit():
                            want[i] = int(x)
            if list(got) != [str(w) for w in want]:
                bad = bad or 'client %s (%s) has the options %s instead of %s' % (ip, c['names'].get(ip, ip), list(got), want)
        return Outcome(bad=bad, nontrivial=len(c['lines']) > 1 and part > 0, key=(text, str(c['ips'])),
                       tags=['clients', 'client-entries-%d' % n])
