"""The reports of the server and of the filters: clients, queues, packets, files."""
import os, time
import c41

PERIOD = 2          # seconds of the clock of nbspd, a fifth of one here


class Check(c41.Check):
    pid = 'C42'
    title = 'The state reports of the server and the filters tell what they have and sent'
    drivers = []
    quick, thorough = 72, 3000
    rule = 'a case counts as non-trivial when reports were judged after products had been relayed to clients or filters'

    def gen(self, src):
        c = self.gen_life(src)
        for r in c['runs']:
            r['clients'] = [src.pick([1, 2]) for _ in range(src.draw(4))]
            r['flags'] = src.wpick((10, ''), (1, 'f'), (1, 's'))
            steps = []
            for s in r['steps']:
                steps.append(s)
                if src.bool(0.3):
                    steps.append(('reports',))
            r['steps'] = steps + [('reports',)]
        c['runs'] = c['runs'][:2]
        return c

    def run(self, case, ctx):
        return Life(self, case, ctx).outcome()


class Life(c41.Life):
    conf_extra = dict(serverstate_logperiod_secs=PERIOD, serverthreads_logperiod_secs=PERIOD, serverthreads_logperiod_packets=-1)
    judged = 0

    def one(self, r):
        for n in ('serverstatefile', 'serveractivefile', 'serverthreadsfile', 'filterserver_statefile'):
            if os.path.exists(self.path('log/' + n)):
                os.remove(self.path('log/' + n))
        self.base, self.connected, self.left = {}, {}, False
        super().one(r)

    def trivial(self):
        return not (self.judged and self.relayed)

    def step(self, st):
        if st[0] == 'reports':
            return self.reports()
        if st[0] == 'leave':
            self.left = True
        if st[0] == 'hup':
            self.base = {}
        return super().step(st)

    def blocks(self, name):
        """[[fields of a line], ...] of the reports in a file"""
        r = []
        for l in self.log(name):
            f = l.split()
            if l[:2] == '- ':
                r.append([f[1:]])
            elif not r or l[:2] != '  ':
                self.fail('%s: line %r' % (name, l))
            else:
                r[-1].append(f)
        return r

    def reports(self):
        if not self.feeding or not self.settle('before the reports'):
            return not self.bad
        self.judged += 1
        self.tags.add('reports, %d clients' % len(self.clients))
        if self.server:
            self.reports_server()
        if self.filters and not self.bad:
            self.reports_filters()
        return not self.bad

    def reports_server(self):
        n = len(self.blocks('serverstatefile'))
        tn = len(self.log('serverthreadsfile'))
        hosts = [c.host for c in self.clients]
        if not self.until(lambda: len(self.blocks('serverstatefile')) >= n + 2, 'a report of the server'):
            return
        if self.left and not self.until(lambda: self.blocks('serverstatefile')[-1][0][2:] == [str(len(hosts))], 'a report without a client that is gone'):
            return
        b = self.blocks('serverstatefile')[-1 if self.left else n + 1]
        self.left = False
        if b[0][1:] != [str(len(hosts) + 1), str(len(hosts))]:
            return self.fail('the report of the server has %s entries and clients, there are %d clients' % (b[0][1:], len(hosts)))
        if sorted(x[:3] for x in b[1:]) != sorted([h, str(c.kind), '0'] for h, c in zip(hosts, self.clients)):
            return self.fail('the report of the server is %s, the clients are %s' % (b, [(h, c.kind) for h, c in zip(hosts, self.clients)]))
        for x in b[1:]:
            if self.connected.setdefault(x[0], x[3]) != x[3] or int(x[3]) > int(b[0][0]):
                return self.fail('time of the connection of %s: %s, it was %s; the report is of %s' % (x[0], x[3], self.connected[x[0]], b[0][0]))

        def same():
            a = self.blocks('serveractivefile')
            return len(a) == 1 and a[0][0][1:] == b[0][1:] and a[0][1:] == b[1:]
        if not self.until(same, 'the active file with the present clients', 5):
            return

        def lines(h, since=0):
            return [l.split() for l in self.log('serverthreadsfile')[since:] if l.split()[:1] == [h]]
        for h, c in zip(hosts, self.clients):
            if not self.until(lambda: len(lines(h, tn)) >= 2, 'a report of the thread of ' + h):
                return
            total, last = 0, None
            for l in lines(h):
                if len(l) != 10:
                    return self.fail('report of a thread: %s' % l)
                now, ct, e, p, rt, re, rp = [int(x) for x in l[1:5] + l[6:9]]
                total += rp
                if p != total or e or re:
                    return self.fail('report of the thread of %s: %d packets and %d errors, %d and %d since the last report; the reports add up to %d' % (
                        h, p, e, rp, re, total))
                if l[2] != self.connected.get(h, l[2]) or rt < ct or now < rt + PERIOD or last is not None and rt < last:
                    return self.fail('times in the report of the thread of %s: %s, the report before was of %s' % (h, l, last))
                last = now
            c.poll()
            if total != len(c.packets()):
                return self.fail('the thread of %s reports %d packets, it sent %d' % (h, total, len(c.packets())))
            want = '%.1g' % len(c.b)
            if l[5] != want:
                return self.fail('the thread of %s reports %s bytes, it sent %d' % (h, l[5], len(c.b)))

    def reports_filters(self):
        n = len(self.blocks('filterserver_statefile'))
        if not self.until(lambda: len(self.blocks('filterserver_statefile')) >= n + 2, 'a report of the filters'):
            return
        b = self.blocks('filterserver_statefile')[:n + 2]
        up = {(self.path('bin/f0') if k == 'f0' else self.path('dev/' + k)): k for k, f in self.F.items() if f['up']}
        if sorted(x[0] for x in b[-1][1:]) != sorted(up):
            return self.fail('the report of the filters has %s, expected %s' % (b[-1][1:], sorted(up)))
        now = {}
        for path, k in up.items():
            sums = [sum(int(x[i]) for r in b for x in r[1:] if x[0] == path) for i in (1, 2)]
            told = len(self.told(k))
            now[k] = (told, sums)
            # what a filter is given between the reports; a reload begins anew
            old = self.base.get(k) or ((0, [0, 0]) if not self.reloaded else None)
            if old is not None and (sums[0] - old[1][0] != told - old[0] or sums[1] != old[1][1]):
                return self.fail('the reports of the filter %s have %d files and %d errors, it was told of %d' % (
                    k, sums[0] - old[1][0], sums[1] - old[1][1], told - old[0]))
        self.base = now


CHECK = Check()
