"""nbspd as a process: started, reloaded, signalled, stopped and started again, with everything connected to it."""
import os, select, shutil, signal, socket, struct, subprocess, sys, time
import build, gens, net, pipe, sbn, srv
from c26 import group
from pbt import HarnessError, Outcome, hx
from tclinst import NOBODY, open_path

REC = '''#!/bin/sh
exec 3>>%s
echo start >&3
while IFS= read -r l
do
  printf 'L %%s\\n' "$l" >&3
done
echo end >&3
'''
PROBE = 3900000000
WAIT = 25
LOGS = ('statusfile missinglogfile rtxlogfile qstatelogfile qdbstatslogfile serverstatefile serveractivefile serverthreadsfile '
        'slavestatsfile filterserver_statefile mspoolbdb_dbstats_logfile mspoolbdb_panicfile').split()
PERIODS = ['qstate_logperiod_secs', 'nbspstats_logperiod_secs']


class Check:
    pid = 'C41'
    title = 'nbspd relays all it gets from start to stop, reloads on hang-up, ends cleanly'
    parts = ['core']
    drivers = ['d_per']
    quick, thorough = 400, 12000
    shrink_s = 60
    confirm = (4, 2)
    rule = ('a case counts as non-trivial when nbspd relayed products and was reloaded, signalled, started a second time or restarted '
            'between them, or when at least two periodic reports or runs of the scheduler were due')
    assumptions = ['the filters read their input and the clients read what they are sent', 'sleep() in nbspd takes a fiftieth of the time and its clock of seconds runs ten times as fast',
                   'the network loses none of the datagrams']

    def setup(self):
        self.so = os.path.join(build._base()[0], 'drv', 'fastsleep.so')
        os.makedirs(os.path.dirname(self.so), exist_ok=True)
        subprocess.check_call(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', self.so + str(os.getpid()), os.path.join(build.VERIF, 'drv/fastsleep.c')])
        os.rename(self.so + str(os.getpid()), self.so)

    # ---- generation

    def gen(self, src):
        return self.gen_per(src) if src.bool(0.6) else self.gen_life(src)

    def gen_life(self, src):
        feed = src.wpick((3, 4), (2, 1), (3, 5))
        runs, k = [], 0
        for _ in range(src.wpick((3, 1), (3, 2), (1, 3))):
            steps = []
            for _ in range(src.int(1, 5)):
                w = src.wpick((4, 'in') if feed & 4 else (1, 'mc'), (4, 'mc') if feed & 1 else (1, 'in'), (3, 'hup'), (1, 'noise'), (1, 'second'),
                              (2, 'client'), (1, 'leave'), (1, 'qstate'))
                if w in ('in', 'mc'):
                    x = []
                    for _ in range(src.int(1, 5)):
                        k += 1
                        if w == 'in':
                            x.append([k, src.draw(200), src.draw(200), src.draw(200), src.draw(9), src.pick(['kwbc_saus42', 'tjsj_x-y', 'n']), src.data(src.size(1, 300, 5000)) or b'0'])
                        else:
                            x.append([sbn.frame(**f) for f in gens.product(src, 1000 + k, maxfrag=3)])
                    steps.append((w, src.draw(7), x))
                elif w == 'hup':
                    steps.append((w, src.pick(['add', 'del', 'none']), src.bool(0.4), src.wpick((2, 1), (2, 2), (1, 3))))
                elif w == 'noise':
                    steps.append((w, src.pick(['SIGPIPE', 'SIGALRM'])))
                elif w == 'leave':
                    steps.append((w, src.draw(3)))
                elif w == 'client':
                    steps.append((w, src.pick([1, 2])))
                else:
                    steps.append((w,))
            fl = src.wpick((8, ''), (1, 'f'), (1, 's'), (1, 'r'), (1, 'fs' if feed & 1 else 'fr'))
            runs.append(dict(flags=fl, steps=steps, daemon=src.bool(0.3), end=src.pick(['SIGTERM', 'SIGINT', 'SIGQUIT']),
                             clients=[src.pick([1, 2]) for _ in range(src.draw(3))]))
        return dict(kind='life', feed=feed, slots=src.pick([0, 1024]), runs=runs, httpd=src.bool(0.7), scripts=src.bool(0.8))

    def gen_per(self, src):
        t = 1700000000 + src.draw(100000000)
        calls, x = [], t
        for _ in range(src.int(1, 12)):
            x += src.wpick((4, src.int(0, 10)), (3, src.int(1, 70)), (1, src.int(60, 400)), (1, 60), (1, 5))
            calls.append(x)
        return dict(kind='per', t=t, calls=calls, period=[src.wpick((3, 60), (4, src.int(1, 100)), (1, 0)) for _ in PERIODS],
                    sched=src.bool(0.3), hup=False)

    def run(self, case, ctx):
        return self.run_per(case, ctx) if case['kind'] == 'per' else Life(self, case, ctx).outcome()

    # ---- the periodic work

    def run_per(self, case, ctx):
        d = ctx.dir()
        log = d + '/schedlog'
        with open(d + '/sched', 'w') as f:
            f.write('#!/bin/sh\necho x >> %s\n' % log)
        os.chmod(d + '/sched', 0o755)
        r = pipe.Run(ctx, dict(zip(PERIODS, case['period']), scheduler=d + '/sched' if case['sched'] else None, qstatelogfile=d + '/qstate',
                               qdbstatslogfile=d + '/qdb', queue_quota_logperiod_secs=60, serverstate_logperiod_secs=60,
                               loadave_checkperiod_secs=30, rtxdb_truncate_minutes=10, mspoolbdb_dbstats_logperiod_secs=60,
                               mspoolbdb_dbstats_logfile=d + '/mdb'), d)
        r.op('pinit', case['t'])
        nxt = [case['t'] + p for p in case['period']]
        n, want, minute, sched, due = [0, 0], [], case['t'] // 60, 0, 0
        for t in case['calls']:
            for i in (0, 1):
                if t >= nxt[i]:
                    nxt[i] += case['period'][i]
                    n[i] += 1
                    due += 1
            if t // 60 % 60 != minute % 60:
                minute = t // 60
                sched += case['sched']
                due += case['sched']
            r.op('pcall', t, log, sched)
            want.append(n + [sched])
        r.op('stop')
        o = r.run('d_per')
        out = Outcome()
        out.nontrivial = due > 1
        out.tags = ['periodic'] + ['scheduler'] * case['sched'] + ['late calls'] * any(b - a > 60 for a, b in zip(case['calls'], case['calls'][1:]))
        got = [[int(x) for x in l] for l in o.res.get('pcall')]
        out.bad = o.bad or (None if got == want else 'calls at %s after %d, periods %s: reports of the queues, of the statistics and runs of the '
                            'scheduler %s, expected %s' % ([x - case['t'] for x in case['calls']], case['t'], case['period'], got, want))
        if not out.bad:
            q = [l.split() for l in open(d + '/qstate')] if os.path.exists(d + '/qstate') else []
            if any(len(l) != 4 or not all(x.isdigit() for x in l) or int(l[0]) not in case['calls'] for l in q):
                out.bad = 'report of the queues: %s' % q
        return out


class Client:
    def __init__(self, kind, port, addr=2):
        self.kind, self.b, self.start = kind, b'', None
        end = time.time() + WAIT
        while True:
            self.s = socket.socket()
            self.s.settimeout(WAIT)
            self.s.bind(('127.0.0.%d' % addr, 0))      # a second connection of a host replaces the first one
            try:
                self.s.connect(('127.0.0.1', port))
                break
            except OSError:
                self.s.close()
                if time.time() > end:
                    raise
                time.sleep(0.02)
        self.s.sendall(b'NBS%d' % kind)
        self.s.setblocking(False)
        self.eof = False

    def poll(self):
        while not self.eof:
            try:
                x = self.s.recv(1 << 20)
            except BlockingIOError:
                return
            except OSError:
                x = b''
            if not x:
                self.eof = True
            self.b += x

    def packets(self):
        """Offsets of the whole packets received"""
        r, o = [], 0
        while o + 12 <= len(self.b) and len(self.b) >= o + 12 + struct.unpack('>I', self.b[o + 4:o + 8])[0]:
            r.append(o)
            o += 12 + struct.unpack('>I', self.b[o + 4:o + 8])[0]
        return r

    def items(self):
        """[(seq, ...)] of the whole packets received; the rest"""
        r, o = [], 0
        while o + 12 <= len(self.b):
            ident, size, ck = struct.unpack('>III', self.b[o:o + 12])
            p = self.b[o + 12:o + 12 + size]
            if len(p) < size:
                break
            o += 12 + size
            seq = struct.unpack('>I', p[:4])[0]
            if ident == net.FPATH:
                r.append((seq, p[4], p[5], p[6], p[7], p[8:27].split(b'\0')[0].decode('latin1'), p[27:].split(b'\0')[0].decode('latin1')))
            elif ident == net.FDATA:
                z, n, k, bs = struct.unpack('>BHHI', p[45:54])
                x = (seq, p[4], p[5], p[6], p[7], p[8:45].split(b'\0')[0].decode('latin1'), p[54:])
                if k > 1 and r and r[-1][0] == seq:
                    r[-1] = x[:6] + (r[-1][6] + x[6],)
                else:
                    r.append(x)
            else:
                r.append(('?', self.b[o - 12 - size:o][:40]))
        return r, self.b[o:]


class Life:
    conf_extra = {}

    def __init__(self, check, case, ctx):
        self.c, self.ctx, self.so = case, ctx, check.so
        self.d = d = ctx.dir()
        for x in ('spool', 'db', 'dev', 'bin', 'run', 'log', 'in'):
            os.mkdir(d + '/' + x)
        open_path(d)
        self.exe = ctx.scratch + '/nbspd'
        if not os.path.exists(self.exe):
            shutil.copy(ctx.src['core'] + '/src/nbspd', self.exe)
            os.chmod(self.exe, 0o755)
        s = socket.socket()
        s.bind(('127.0.0.1', 0))
        self.port = s.getsockname()[1]
        s.close()
        self.mport = 20000 + self.port % 40000
        conf = dict(user='', group='', home='', feedmode=case['feed'], spooldir=d + '/spool', dbhome=d + '/db', spooldb_fname=d + '/db/spool.state',
                    spooldb_slots=case['slots'], devdir=d + '/dev', filterlist=d + '/bin/f0', pidfile=d + '/run/pid', qstatefifo=d + '/run/q.fifo',
                    infeedfifo=d + '/run/in.fifo', infeedfifogrp='nogroup', startscript=d + '/bin/start.tcl' if case['scripts'] else '',
                    stopscript=d + '/bin/stop.tcl' if case['scripts'] else '', scheduler=d + '/bin/sched', httpd_enable=int(case['httpd']),
                    httpd=d + '/bin/httpd', netfilter_enable=0, servertype=3, serverport=self.port, multicastip=group(0), multicastport=self.mport,
                    ifip='127.0.0.1', rtxdb_slots=0, dbcachemb=2, emwinfilter_always=0, pctl_read_timeout_ms=50, queue_read_timeout_ms=50,
                    client_queue_read_timeout_ms=50, broadcast_read_timeout_secs=600, mspoolbdb_dbcache_mb=2, server_clientid_timeout_secs=1000)
        for x in LOGS:
            conf[x] = d + '/log/' + x
        conf.update(self.conf_extra)
        self.text = ''.join('set %s {%s}\n' % kv for kv in conf.items())
        self.write('nbspd.conf', self.text)
        self.write('second.conf', self.text + 'set startscript {}\nset stopscript {}\nset httpd_enable 0\n')
        for x in ('f0', 'httpd'):
            self.write('bin/' + x, REC % (d + '/log/' + x), 0o755)
        self.write('bin/sched', '#!/bin/sh\nexit 0\n', 0o755)
        for x in ('start', 'stop'):
            self.write('bin/%s.tcl' % x, 'set f [open {%s/log/tcl} a]; puts $f %s; close $f\n' % (d, x))
        for r, ds, fs in os.walk(d):
            for x in [r] + [r + '/' + f for f in fs]:
                os.chown(x, NOBODY, NOBODY)
        self.model = sbn.Model(spool=d + '/spool', rtxslots=False)
        self.tags, self.bad, self.pid, self.p, self.happened, self.relayed = set(), None, None, None, 0, 0
        self.udp = None
        self.nprobe = self.ng = 0

    def write(self, rel, text, mode=0o644):
        p = self.d + '/' + rel
        with open(p, 'w') as f:
            f.write(text)
        os.chmod(p, mode)
        return p

    def path(self, rel):
        return self.d + '/' + rel

    def log(self, name):
        try:
            return open(self.path('log/' + name), encoding='latin1', newline='').read().split('\n')[:-1]
        except FileNotFoundError:
            return []

    def launch(self, conf, flags):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:symbolize=0:verify_asan_link_order=0:detect_stack_use_after_return=0',
                   TZ='UTC', LC_ALL='C', LD_PRELOAD=self.so)
        return subprocess.Popen(['/usr/bin/setpriv', '--reuid=%d' % NOBODY, '--regid=%d' % NOBODY, '--clear-groups', '--', self.exe] + flags +
                                ['-c', self.path(conf)], stdin=subprocess.DEVNULL, stdout=open(self.path('log/out'), 'ab'), stderr=subprocess.STDOUT, env=env,
                                cwd=self.d, start_new_session=True)

    def until(self, f, what, secs=WAIT):
        end = time.time() + secs
        while not f():
            if time.time() > end:
                return self.fail('%s: not within %d s' % (what, secs))
            if self.p is not None and self.p.poll() not in (None, 0):
                return self.fail('nbspd ended with status %s while %s was expected: %s' % (self.p.returncode, what, self.log('out')[-3:]))
            time.sleep(0.01)
        return True

    def fail(self, why):
        self.bad = self.bad or why
        return False

    def alive(self):
        if self.pid is None:
            return False
        if self.p is not None and self.p.pid == self.pid:
            return self.p.poll() is None
        try:
            return open('/proc/%d/stat' % self.pid).read().rsplit(')', 1)[1].split()[0] != 'Z'
        except OSError:
            return False

    # ---- what nbspd is given

    def infeed(self, items):
        fd = None
        try:
            fd = os.open(self.path('run/in.fifo'), os.O_WRONLY | os.O_NONBLOCK)
            for a in items:
                s = ('%d %d %d %d %d %s %s' % a).encode('latin1')
                os.write(fd, struct.pack('>I', len(s)) + s + b'\n')
        except OSError:
            return False
        finally:
            if fd is not None:
                os.close(fd)
        return True

    def multicast(self, frames):
        if self.udp is None:
            self.udp = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            self.udp.setsockopt(socket.IPPROTO_IP, socket.IP_MULTICAST_IF, socket.inet_aton('127.0.0.1'))
            self.udp.setsockopt(socket.IPPROTO_IP, socket.IP_MULTICAST_TTL, 1)
        for f in frames:
            self.udp.sendto(f, (group(0), self.mport))

    def probe(self):
        """A product that all the outputs are told of and that does not count."""
        q = PROBE + self.nprobe
        self.nprobe += 1
        if self.c['feed'] & 4:
            return self.infeed([(q, 1, 1, 1, 1, 'probe', self.probefile)])
        f = srv.probe_frame(q)
        self.multicast([f])
        self.probes.append(f)
        self.model.feed(0, f)
        return True

    # ---- what comes out

    def told(self, name):
        """The products that a program was told of."""
        r = []
        for l in self.log(name):
            if l[:2] == 'L ' and len(l) > 2:        # an empty line tells a filter to end
                x = l[2:].split(' ')
                r.append(tuple(map(int, x[:5])) + tuple(x[5:]) if len(x) == 7 and all(y.isdigit() for y in x[:5]) else ('?', l))
        return r

    def strip(self, l):
        return [a for a in l if not (isinstance(a[0], int) and PROBE <= a[0] < PROBE + 10000000)]

    def outputs(self):
        """name -> function that gives the products received, and those expected, in the present run"""
        r = []
        if self.filters:
            for n, f in self.F.items():
                if f['up']:
                    r.append((n, self.strip(self.told(n)), f['want']))
        for i, c in enumerate(self.clients):
            c.poll()
            got, rest = c.items()
            got = self.strip(got)
            r.append(('client %d (NBS%d)' % (i, c.kind), got, c.want))
        return r

    def stored(self):
        """The files that the spool has to have."""
        r = []
        for a in self.model.sann:
            if a[6] in r:
                r.remove(a[6])
            r.append(a[6])
        return noprobes(r[-self.c['slots']:] if self.c['slots'] else r)

    def settle(self, what):
        """Waits for all the outputs to have what they have to get."""
        end = time.time() + WAIT
        while True:
            outs = self.outputs()
            left = [(n, len(g), len(w)) for n, g, w in outs if len(g) < len(w)]
            if not left and (outs or self.stored() == noprobes(self.spoolfiles())):
                return True
            if time.time() > end:
                if not left:
                    return self.fail('%s: files in the spool %s, expected %s' % (what, self.spoolfiles(), self.stored()))
                n = left[0][0]
                g, w = [(g, w) for m, g, w in self.outputs() if m == n][0]
                return self.fail('%s: %s was told of %d products, expected %d; the last ones %s, expected %s; %s' % (
                    what, n, len(g), len(w), brief(g[-2:]), brief(w[-2:]), self.log('out')[-3:]))
            if not self.alive():
                return self.fail('nbspd ended: %s' % self.log('out')[-3:])
            time.sleep(0.01)

    def announce(self, a, data):
        for f in self.F.values():
            if f['up']:
                f['want'].append(a)
        for c in self.clients:
            c.want.append(a if c.kind == 2 else a[:5] + (os.path.basename(a[6]), data))
        self.relayed += 1

    def client(self, kind):
        if self.port is None or not self.server or not self.feeding:
            return True
        self.naddr += 1
        c = Client(kind, self.port, self.naddr)
        c.host = '127.0.0.%d' % self.naddr
        c.want = []
        # the server takes it some time after the connection; probes show when it has
        end = time.time() + WAIT
        while not c.items()[0]:
            if time.time() > end or c.eof:
                return self.fail('a client NBS%d got nothing of what came in after its connection; %s' % (kind, self.log('out')[-3:]))
            self.probe()
            t = time.time() + 0.15
            while time.time() < t and not c.items()[0] and not c.eof:
                time.sleep(0.01)
                c.poll()
        self.clients.append(c)
        return True

    # ---- a run

    def ready(self):
        """nbspd takes what it is sent."""
        if self.c['feed'] & 4 and not self.until(lambda: self.infeed([]), 'the input fifo'):
            return False
        if not self.until(lambda: os.path.exists(self.path('run/q.fifo')), 'the fifo of the queues'):
            return False
        if not self.c['feed'] & 4:
            n = len(self.told('f0')) if self.filters else 0
            old = set(self.spoolfiles())

            def seen():
                if time.time() > self.tp:
                    self.probe()
                    self.tp = time.time() + 0.2
                return len(self.told('f0')) > n if self.filters else any('probe' in self.content(p) for p in set(self.spoolfiles()) - old)
            self.tp = 0
            return self.until(seen, 'the first product')
        if self.filters:
            n = len(self.told('f0'))

            def seen():
                if time.time() > self.tp:
                    self.probe()
                    self.tp = time.time() + 0.2
                return len(self.told('f0')) > n
            self.tp = 0
            return self.until(seen, 'the first product at the filter')
        return True

    def content(self, p):
        try:
            return open(p, encoding='latin1', newline='').read()
        except OSError:
            return ''

    def spoolfiles(self):
        return sorted(os.path.join(r, f) for r, ds, fs in os.walk(self.path('spool')) for f in fs)

    def outcome(self):
        out = Outcome()
        self.probefile = self.path('in/probe')
        with open(self.probefile, 'wb') as f:
            f.write(b'probe')
        self.probes, self.order = [], []
        self.F = {}
        try:
            for i, r in enumerate(self.c['runs']):
                self.F = {n: dict(up=True, want=[], starts=0) for n in ['f0'] + [x for x in self.F if x != 'f0' and os.path.exists(self.path('dev/' + x))]}
                for n in list(self.F):
                    if os.path.exists(self.path('log/' + n)):
                        os.remove(self.path('log/' + n))
                for n in ('tcl', 'httpd'):
                    if os.path.exists(self.path('log/' + n)):
                        os.remove(self.path('log/' + n))
                self.clients = []
                self.one(r)
                if self.bad:
                    self.bad = 'run %d (%s): %s' % (i, r['flags'], self.bad)
                    break
                self.happened += i > 0
        finally:
            self.kill()
        out.bad = self.bad
        out.nontrivial = not self.trivial()
        out.tags = sorted(self.tags) + ['feed %d' % self.c['feed'], 'runs %d' % len(self.c['runs'])]
        return out

    def trivial(self):
        return not (self.relayed and self.happened)

    def kill(self):
        for c in getattr(self, 'clients', []):
            c.s.close()
        if self.udp:
            self.udp.close()
        if self.alive():
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        if self.p is not None:
            if self.p.poll() is None:
                self.p.kill()
            self.p.wait()

    def one(self, r):
        fl = r['flags']
        self.reloaded, self.naddr = False, 1
        self.filters, self.server, self.feeding = 'f' not in fl, 's' not in fl, 'r' not in fl
        self.p = self.launch('nbspd.conf', ['-' + x for x in fl] + ([] if r['daemon'] else ['-F']))
        pidfile = self.path('run/pid')

        def haspid():
            return self.content(pidfile).endswith('\n')
        if not self.until(haspid, 'the pid file'):
            return
        self.pid = int(self.content(pidfile))
        if not r['daemon'] and self.pid != self.p.pid:
            return self.fail('the pid file has %d, not %d' % (self.pid, self.p.pid))
        if r['daemon'] and not self.until(lambda: self.p.poll() is not None, 'the end of the program that starts the daemon'):
            return
        if r['daemon'] and self.p.returncode != 0:
            return self.fail('starting the daemon: status %d' % self.p.returncode)
        if not self.alive():
            return self.fail('no process %d, of the pid file' % self.pid)
        if self.c['scripts'] and self.log('tcl') != ['start']:
            return self.fail('the start script ran %s' % self.log('tcl'))
        if self.feeding:
            if not self.ready():
                return
        elif self.server:
            # no feed: it only serves connections
            try:
                Client(2, self.port).s.close()
            except OSError:
                return self.fail('no server')
        elif not self.until(lambda: os.path.exists(self.path('run/q.fifo')), 'the fifo of the queues'):
            return
        if not self.server:
            s = socket.socket()
            if s.connect_ex(('127.0.0.1', self.port)) == 0:
                self.fail('there is a server with the option -s')
            s.close()
        if not self.filters and self.log('f0'):
            return self.fail('a filter was told of something with the option -f')
        for k in r['clients']:
            if not self.client(k):
                return
        for st in r['steps']:
            if not self.step(st) or self.bad:
                return
        if not self.settle('before the end'):
            return
        self.judge('before the end')
        self.end(r)

    def step(self, st):
        w = st[0]
        if w in ('in', 'mc'):
            if not self.feeding or not self.c['feed'] & (4 if w == 'in' else 1):
                return True
            self.tags.add(w)
            if w == 'in':
                for k, t, c, code, ch, name, data in st[2]:
                    p = self.path('in/%s.%d' % (name[:15], k))
                    with open(p, 'wb') as f:
                        f.write(data)
                    a = (k, t, c, code, ch, name, p)
                    self.announce(a, data)
                    if not self.infeed([a]):
                        return self.fail('the input fifo is not read')
            else:
                for fr in st[2]:
                    n = len(self.model.sann)
                    for f in fr:
                        self.model.feed(0, f)
                    for a in self.model.sann[n:]:
                        self.announce(a, self.model.files[a[6]])
                    self.multicast(fr)
            return True if st[1] < 4 and w == 'in' else self.settle('after the products')
        if w == 'noise':
            self.tags.add('other signals')
            self.happened += 1
            os.kill(self.pid, getattr(signal, st[1]))
            return True
        if w == 'client':
            return self.settle('before a client') and self.client(st[1])
        if w == 'leave':
            if self.clients and self.settle('before a client leaves'):
                self.tags.add('client leaves')
                self.happened += 1
                self.clients.pop(st[1] % len(self.clients)).s.close()
            return not self.bad
        if w == 'qstate':
            return self.qstate()
        if w == 'second':
            self.tags.add('second instance')
            self.happened += 1
            before = self.content(self.path('run/pid'))
            p = self.launch('second.conf', ['-F'])
            try:
                code = p.wait(WAIT)
            except subprocess.TimeoutExpired:
                p.kill()
                return self.fail('a second nbspd runs')
            if code == 0:
                return self.fail('a second nbspd ends with status 0')
            if self.content(self.path('run/pid')) != before:
                return self.fail('a second nbspd changes the pid file: %r, it was %r' % (self.content(self.path('run/pid')), before))
            if not os.path.exists(self.path('run/q.fifo')):
                return self.fail('a second nbspd removes the fifo of the queues')
            if self.feeding and self.c['feed'] & 4 and not self.infeed([]):
                return self.fail('a second nbspd removes the input fifo')
            return True
        # hup
        if not self.filters or not self.feeding:
            return True
        self.tags.add('reload ' + st[1])
        self.reloaded = True
        self.happened += 1
        if not st[2] and not self.settle('before a reload'):
            return False
        n = sum(l == 'start' for l in self.log('f0'))
        dev = [x for x in self.F if x != 'f0' and self.F[x]['up']]
        new = gone = None
        if st[1] == 'add':
            self.ng += 1
            new = 'g%d' % self.ng
            self.write('bin/x', REC % (self.path('log/' + new)), 0o755)
            os.rename(self.path('bin/x'), self.path('dev/' + new))
        elif st[1] == 'del' and dev:
            gone = dev[0]
            # what comes before the reload is for it too
            if not self.settle('before a reload'):
                return False
            os.remove(self.path('dev/' + gone))
            self.F[gone]['up'] = False
        for _ in range(st[3]):
            os.kill(self.pid, signal.SIGHUP)
            time.sleep(0.005)

        # the reload is done when the filters were started again; a product makes sure of it
        def seen():
            if time.time() > self.tp:
                self.probe()
                self.tp = time.time() + 0.2
            return sum(l == 'start' for l in self.log('f0')) > n and (new is None or self.told(new))
        self.tp = 0
        if not self.until(seen, 'the reload of the filters'):
            return False
        if gone is not None and not self.until(lambda: self.log(gone)[-1:] == ['end'], 'the end of a filter that is gone'):
            return False
        if new is not None:
            self.F[new] = dict(up=True, want=[], starts=1)
            # what was on its way is not for it
            late = self.strip(self.told(new))
            self.F[new]['want'] = late
            if late != self.F['f0']['want'][len(self.F['f0']['want']) - len(late):]:
                return self.fail('a new filter was told of %s' % brief(late))
        return True

    def qstate(self):
        if not self.feeding:
            return True
        if not self.settle('before the report of the queues'):
            return False
        self.tags.add('state of the queues')
        fd = os.open(self.path('run/q.fifo'), os.O_RDONLY | os.O_NONBLOCK)
        b, end, tp = b'', time.time() + WAIT, 0
        try:
            while len(b) < 28 and time.time() < end:
                if not self.c['feed'] & 1 and time.time() > tp:
                    # without a processor the report comes after a product
                    self.probe()
                    tp = time.time() + 0.2
                if select.select([fd], [], [], 0.05)[0]:
                    x = os.read(fd, 28 - len(b))
                    b += x
                    if not x:
                        time.sleep(0.01)
        finally:
            os.close(fd)
        if len(b) < 28:
            return self.fail('no report in the fifo of the queues')
        v = struct.unpack('7I', b)
        if v[0] != 2 or self.c['feed'] & 1 and v[1:4] != (0, 0, 0):
            return self.fail('the report of the queues, when they are empty, is %s' % (v,))
        return True

    def judge(self, when):
        for n, g, w in self.outputs():
            # each feed in its own order
            for kind, sel in (('of the input fifo', lambda a: self.isin(a)), ('of the readers', lambda a: not self.isin(a))):
                x, y = [a for a in g if sel(a)], [a for a in w if sel(a)]
                if x != y:
                    i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                    return self.fail('%s: %s was told of %d products %s, expected %d; number %d is %s, expected %s' % (
                        when, n, len(x), kind, len(y), i, brief(x[i:i + 1]), brief(y[i:i + 1])))
        for c in self.clients:
            if c.items()[1]:
                return self.fail('a client got a part of a packet: %r' % c.items()[1][:60])

    def isin(self, a):
        return isinstance(a[0], int) and a[0] < 1000

    def end(self, r):
        os.kill(self.pid, getattr(signal, r['end']))
        if not self.until(lambda: not self.alive(), 'the end after ' + r['end']):
            return
        if not r['daemon'] and self.p.returncode != 0:
            return self.fail('%s: nbspd ended with status %d: %s' % (r['end'], self.p.returncode, self.log('out')[-3:]))
        if any('AddressSanitizer' in l for l in self.log('out')):
            return self.fail('crash at the end: %s' % self.log('out')[-20:])
        self.p = None
        self.pid = None
        for n in ('pid', 'q.fifo') + (('in.fifo',) if self.feeding and self.c['feed'] & 4 else ()):
            if os.path.exists(self.path('run/' + n)):
                return self.fail('%s is left after the end' % n)
        want = ['start', 'stop'] if self.c['scripts'] else []
        if self.log('tcl') != want:
            return self.fail('scripts run: %s, expected %s' % (self.log('tcl'), want))
        if self.c['httpd'] and not self.until(lambda: self.log('httpd') == ['start', 'L init', 'end'], 'the end of the web server %s' % self.log('httpd'), 5):
            return
        if not self.c['httpd'] and self.log('httpd'):
            return self.fail('the web server ran')
        if self.filters and self.feeding:
            for n, f in self.F.items():
                if f['up'] and not self.until(lambda: self.log(n)[-1:] == ['end'], 'the end of the filter', 5):
                    return
        s = socket.socket()
        if s.connect_ex(('127.0.0.1', self.port)) == 0:
            self.fail('the server is there after the end')
        s.close()
        for c in self.clients:
            if not self.until(lambda: c.poll() or c.eof, 'the end of the connection of a client', 5):
                return
        self.judge('after the end')
        if self.bad:
            return
        # the files
        want = list(self.model.files)
        have = self.spoolfiles()
        if any(self.content(p) != self.model.files.get(p, b'').decode('latin1') for p in have if p in self.model.files):
            return self.fail('a file of the spool is not what was received')
        stored = self.stored()
        if stored != noprobes(have):
            return self.fail('files in the spool: %s, expected %s' % ([os.path.basename(x) for x in have], [os.path.basename(x) for x in stored]))


def noprobes(l):
    """Without the files of probes, which were lost if nbspd did not listen yet."""
    return sorted(x for x in l if not x.rsplit('_', 1)[1].startswith('39000'))


def brief(l):
    return [a[:6] + ((a[6] if isinstance(a[6], str) else '%d bytes' % len(a[6])),) if len(a) > 6 else a for a in l]


CHECK = Check()
