"""Planted bugs, ninth set (the life of nbspd): python3 tools/plants9.py [ID...]"""
import sys
from seedtool import plant
P = []
LIVE = r'''
EXTRA = globals().get('EXTRA', {})
import signal, socket, time
os.chmod(TMP, 0o755)
D = TMP + '/live'
for x in ('', '/spool', '/db', '/dev', '/bin', '/run', '/log', '/in'):
    os.mkdir(D + x)
EXE = TMP + '/nbspd'
shutil.copy(S + '/nbspd', EXE)
os.chmod(EXE, 0o755)
REC = '#!/bin/sh\nexec 3>>%s/log/%s\necho start >&3\nwhile IFS= read -r l\ndo printf "L %%s\\n" "$l" >&3\ndone\necho end >&3\n'


def put(rel, text, mode=0o644):
    with open(D + '/' + rel, 'w') as f:
        f.write(text)
    os.chmod(D + '/' + rel, mode)
    os.chown(D + '/' + rel, 65534, 65534)


s = socket.socket()
s.bind(('127.0.0.1', 0))
PORT = s.getsockname()[1]
s.close()
c = dict(user='', group='', home='', feedmode=4, spooldir=D + '/spool', dbhome=D + '/db', spooldb_fname=D + '/db/state', devdir=D + '/dev',
         filterlist=D + '/bin/f0', pidfile=D + '/run/pid', qstatefifo=D + '/run/q.fifo', infeedfifo=D + '/run/in.fifo', infeedfifogrp='nogroup',
         startscript='', stopscript='', scheduler=D + '/bin/f0', httpd_enable=0, servertype=3, serverport=PORT, netfilter_enable=0, rtxdb_slots=0,
         dbcachemb=2, emwinfilter_always=0)
for x in ('statusfile missinglogfile rtxlogfile qstatelogfile qdbstatslogfile serverstatefile serveractivefile serverthreadsfile '
          'slavestatsfile filterserver_statefile mspoolbdb_dbstats_logfile mspoolbdb_panicfile').split():
    c[x] = D + '/log/' + x
c.update(EXTRA)
put('nbspd.conf', ''.join('set %s {%s}\n' % kv for kv in c.items()))
put('bin/f0', REC % (D, 'f0'), 0o755)
for r, ds, fs in os.walk(D):
    os.chown(r, 65534, 65534)
PROCS = []


def launch(*flags):
    p = subprocess.Popen(['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups', '--', EXE] + list(flags) + ['-c', D + '/nbspd.conf'],
                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(D + '/log/err', 'ab'), cwd=D, start_new_session=True)
    PROCS.append(p)
    return p


def log(name):
    return open(D + '/log/' + name).read().split('\n')[:-1] if os.path.exists(D + '/log/' + name) else []


def until(f, secs=30):
    end = time.time() + secs
    while time.time() < end:
        if f():
            return True
        time.sleep(0.05)
    return False


def infeed(n):
    m = b'%d 1 1 1 1 name %s/in/x' % (n, D.encode())
    try:
        fd = os.open(D + '/run/in.fifo', os.O_WRONLY | os.O_NONBLOCK)
    except OSError:
        return False
    os.write(fd, struct.pack('>I', len(m)) + m + b'\n')
    os.close(fd)
    return True


def pids():
    r = []
    for p in os.listdir('/proc'):
        try:
            if p.isdigit() and os.readlink('/proc/%s/exe' % p) == EXE:
                r.append(int(p))
        except OSError:
            pass
    return r


def end():
    for p in pids():
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass
    for p in PROCS:
        p.wait()
    done()
'''


def bug(*a, **k):
    P.append((a, k))


PER = r'''
e = build('d_per')


def turns(period, start, calls, sched=False):
    d = tempfile.mkdtemp(dir=TMP)
    with open(d + '/sched', 'w') as f:
        f.write('#!/bin/sh\necho x >> %s/s\n' % d)
    os.chmod(d + '/sched', 0o755)
    prog = ['set %s %s' % (k, v) for k, v in DEF.items()]
    for k, v in dict(spooldir='', dbhome='', spooldb_fname='/a', missinglogfile='/b', rtxlogfile='/c', statusfile='/st', scheduler='/sched', qstatelogfile='/q',
                     qdbstatslogfile='/e', mspoolbdb_panicfile='/f', mspoolbdb_dbstats_logfile='/g').items():
        prog.append('set %s %s' % (k, hx((d + v).encode())))
    prog += ['set nbspstats_logperiod_secs %d' % period, 'start', 'pinit %d' % start]
    n = 0
    for t in calls:
        prog.append('pcall %d %s/s %d' % (t, d, 0))
    prog.append('sleep 500')
    prog.append('pcall %d %s/s 0' % (calls[-1], d))
    r = run(e, prog + ['stop'])
    return [[int(x) for x in l] for l in get(r, 'pcall')]
'''
bug('sched-wrap', 'C41', 'a new hour while nbspd runs', 'after the minute 59 the scheduler runs no more until a minute with a larger number comes',
    [('src/per.c', 'if(minute_now != mev->last_minute){', 'if(minute_now > mev->last_minute){')],
    PER + r'''
h = 1700000000 // 3600 * 3600
g = turns(1000000, h + 10, [h + 70, h + 58 * 60 + 5, h + 59 * 60 + 5, h + 3600 + 5, h + 3660 + 5])
check(g[-1][2] == 5, 'runs of the scheduler %s' % g)
done()
''', drivers=('d_per', 'd_core'))
bug('per-drift', 'C41', 'turns of the main loop that are later than a report is due', 'the reports drift: the period counts from the late report',
    [('src/per.c', 'ev->next += ev->period;', 'ev->next = now + ev->period;')],
    PER + r'''
t = 1700000000
g = turns(60, t, [t + 59, t + 75, t + 119, t + 121, t + 239, t + 239, t + 245])
check([x[1] for x in g[:7]] == [0, 1, 1, 2, 3, 3, 4], 'reports %s' % g)
done()
''', drivers=('d_per', 'd_core'))
bug('hup-toggle', 'C41', 'two hang-up signals within one turn of the main loop', 'the second hang-up takes back the first one and nothing is reloaded',
    [('src/signal.c', '  f_hup = 1;', '  f_hup = (f_hup == 0);')],
    LIVE + r'''
p = launch('-F')
check(until(lambda: infeed(5)), 'the fifo')
check(until(lambda: 'start' in log('f0')), 'the filter')
for i in range(3):
    n = log('f0').count('start')
    time.sleep(5.3 if i else 0)
    put('dev/g%d' % i, REC % (D, 'g%d' % i), 0o755)
    os.kill(p.pid, signal.SIGHUP)
    time.sleep(0.3)
    os.kill(p.pid, signal.SIGHUP)
    check(until(lambda: infeed(7 + i) and 'start' in log('g%d' % i), 12), 'filter %d is not there after the reload' % i)
end()
''')
bug('pid-takeover', 'C41', 'nbspd is started while another one runs', 'a second nbspd starts and takes the pid file and fifos of the first one',
    [('src/pid.c', 'O_RDWR | O_CREAT | O_EXCL', 'O_RDWR | O_CREAT')],
    LIVE + r'''
p = launch('-F')
check(until(lambda: infeed(5)), 'the fifo')
check(until(lambda: 'start' in log('f0')), 'the filter')
b = open(D + '/run/pid').read()
q = launch('-F')
check(until(lambda: q.poll() is not None, 15) and q.returncode != 0, 'the second one runs')
check(open(D + '/run/pid').read() == b == '%d\n' % p.pid, 'pid file')
end()
''')
bug('lock-first', 'C41', 'nbspd is started as a daemon and stopped', 'the pid file has the number of the process that started the daemon, and remains after the end',
    [('src/main.c', '''  if((status == 0) && (g.f_ndaemon == 0))
    status = init_daemon();
''', '''  if(status == 0)
    status = init_lock();

  if((status == 0) && (g.f_ndaemon == 0))
    status = init_daemon();
'''), ('src/main.c', '''  if(status == 0)
    status = init_lock();

  if(status == 0)
    status = init_qstate_fifo();
''', '''  if(status == 0)
    status = init_qstate_fifo();
''')],
    LIVE + r'''
p = launch()
check(until(lambda: infeed(5)), 'the fifo')
n = open(D + '/run/pid').read()
check(pids() == [int(n)], 'pid file %s, process %s' % (n, pids()))
for x in pids():
    os.kill(x, signal.SIGTERM)
check(until(lambda: not pids()), 'the end')
check(not os.path.exists(D + '/run/pid'), 'the pid file is left')
end()
''')
REP = r"""
EXTRA = dict(serverstate_logperiod_secs=5, serverthreads_logperiod_secs=5, serverthreads_logperiod_packets=-1)
""" + LIVE + r"""
p = launch('-F')
check(until(lambda: infeed(5)), 'the fifo')
check(until(lambda: 'start' in log('f0')), 'the filter')
put('in/x', 'content')


def client(addr, kind=2):
    s = socket.socket()
    s.bind(('127.0.0.%d' % addr, 0))
    s.settimeout(30)
    s.connect(('127.0.0.1', PORT))
    s.sendall(b'NBS%d' % kind)
    return s


N = [10]


def feed_until(s):
    "products until the client gets one; then what comes is read for a while"
    b = b''
    s.settimeout(0.5)
    for i in range(60):
        infeed(N[0])
        N[0] += 1
        try:
            b += s.recv(100000)
            break
        except socket.timeout:
            pass
    return b


def packets(s, b):
    s.settimeout(1)
    try:
        while True:
            x = s.recv(100000)
            if not x:
                break
            b += x
    except socket.timeout:
        pass
    n = 0
    while len(b) >= 12:
        b = b[12 + struct.unpack('>I', b[4:8])[0]:]
        n += 1
    return n
"""
bug('rtime-count', 'C42', 'a client that gets products in more than one report period', 'the packets since the last report are those since the connection',
    [('src/libconnth/cs.c', """  cs->rtime = time(NULL);
  cs->errors_rtime = 0;
  cs->packets_rtime = 0;
  cs->bytes_rtime = 0.0;
}

void conn_stats_update_packets""", """  cs->rtime = time(NULL);
  cs->errors_rtime = 0;
  cs->packets_rtime = cs->packets_ctime;
  cs->bytes_rtime = 0.0;
}

void conn_stats_update_packets""")],
    REP + r"""
s = client(2)
b = feed_until(s)
time.sleep(7)
for i in range(3):
    infeed(100 + i)
time.sleep(13)
n = packets(s, b)
l = [x.split() for x in log('serverthreadsfile')]
check(len(l) >= 2 and n > 3, 'reports %s' % l)
check(sum(int(x[8]) for x in l) == n and int(l[-1][4]) == n, 'the reports %s, packets %d' % (l, n))
end()
""")
bug('one-protocol', 'C42', 'clients of several protocols are connected', 'the report of the server has the protocol of the first client for all of them',
    [('src/serverm.c', """    nameorip = conn_element_get_nameorip(&(g.ct->ce[i]));
    protocol = get_client_protocol(g.ct, i);
    queue_size = connqueue_n(g.ct->ce[i].cq);
    ctime""", """    nameorip = conn_element_get_nameorip(&(g.ct->ce[i]));
    protocol = get_client_protocol(g.ct, 1);
    queue_size = connqueue_n(g.ct->ce[i].cq);
    ctime""")],
    REP + r"""
s = client(2, 2)
feed_until(s)
t = client(3, 1)
feed_until(t)
time.sleep(1)
n = len(log('serverstatefile'))
time.sleep(13)
l = [x.split() for x in log('serverstatefile')[n:]]
last = l[max(i for i in range(len(l)) if l[i][0] == '-'):]
check(last[0][2:] == ['3', '2'], 'clients %s' % last)
check(sorted(x[:2] for x in last[1:]) == [['127.0.0.2', '2'], ['127.0.0.3', '1']], 'clients %s' % last)
end()
""")
if __name__ == '__main__':
    for a, k in P:
        if not sys.argv[1:] or a[0] in sys.argv[1:]:
            plant(*a, **k)
            print(a[0])
