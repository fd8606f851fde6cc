"""The configuration file: every option of nbspd is what the file sets it to, the default otherwise."""
import os
from pbt import Outcome, hx, unhx

# option, kind (s string, n string that may be empty, i integer, m mode), default, lowest and highest value
# kind u: an unsigned option; negative values are not generated
TABLE = '''
user n noaaport
group n noaaport
home n /var/noaaport
umask m 18
multicastip s 224.0.1.1~224.0.1.2~224.0.1.3~224.0.1.4~224.0.1.5~224.0.1.9~224.0.1.10
multicastport s 1201~1202~1203~1204~1205~1209~1210
ifname n
ifip n
udprcvsize i -1 -1
startscript n */nbspd-start.tcl
stopscript n */nbspd-stop.tcl
scheduler s */scheduler
spooltype i 1 1 3
spooldir s /var/noaaport/nbsp/spool
spooldb_slots u 262144 0
spooldb_fname s /var/noaaport/nbsp/db/spool.state
cspoolbdb_dir s /var/noaaport/nbsp/cspool
cspoolbdb_name s cspooldb
cspoolbdb_mode m 438
cspoolbdb_dbcache_mb u 180 1
cspoolbdb_ndb u 4 1
cspoolbdb_nslots i 4 1
cspoolbdb_maxsize_per128 u 96 0 128
mspoolbdb_dbcache_mb u 180 1
mspoolbdb_ndb u 4 1
mspoolbdb_nslots i 4 1
mspoolbdb_maxsize_per128 u 96 0 128
mspoolbdb_dbstats_logfile s /var/noaaport/nbsp/stats/nbspd.mdbstats
mspoolbdb_dbstats_logperiod_secs i 60 0
mspoolbdb_panicfile s /var/run/nbsp/nbspd.bdbpanic
mspoolbdb_panicfile_mode m 438
devdir s /var/noaaport/nbsp/dev
filterserver_enable i 1 0 1
filterlist n *
emwinfilter n */emwinfilter
emwinfilter_fifo n /var/run/nbsp/emwinfilter.fifo
emwinfilter_read_timeout_secs i 30 0
emwinfilter_always i 1 0 1
netfilter_enable i 1 0 1
netfilter n */netfilter
httpd_enable i 1 0 1
httpd s */httpd
pidfile s /var/run/nbsp/nbspd.pid
pidfilemode m 438
qstatefifo s /var/run/nbsp/nbspd.fifo
qstatefifomode m 438
statusfile s /var/noaaport/nbsp/stats/nbspd.status
missinglogfile s /var/noaaport/nbsp/stats/nbspd.missing
rtxlogfile s /var/noaaport/nbsp/stats/nbspd.rtx
qstatelogfile s /var/noaaport/nbsp/stats/nbspd.qstate
qdbstatslogfile s /var/noaaport/nbsp/stats/nbspd.qdbstats
serverstatefile s /var/noaaport/nbsp/stats/nbspd.server
serveractivefile s /var/noaaport/nbsp/stats/nbspd.active
serverthreadsfile s /var/noaaport/nbsp/stats/nbspd.sthreads
filterserver_statefile s /var/noaaport/nbsp/stats/nbspd.filter
slavestatsfile s /var/noaaport/nbsp/stats/nbspd.slavestats
productmode m 438
subdirmode m 511
spoolsavefmt i 0 0
nbspstats_logperiod_secs i 60 0
qstate_logperiod_secs i 60 0
serverstate_logperiod_secs i 60 0
serverthreads_logperiod_packets i -1 -1
serverthreads_logperiod_secs i 60 0
servertype i 0 0 7
servername n
serverport s 2210
server_maxclients i -1 -1
server_so_sndbuf i -1 -1
server_clientid_timeout_secs i 10 1
server_clientqlimit_logperiod_secs i 60 1
broadcast_read_timeout_secs i 60 0
fifo_write_timeout_ms i 500 0
client_write_timeout_ms i 5000 0
client_write_timeout_retry i 2 0
client_reconnect_wait_sleep_secs i 10 0
client_reconnect_wait_sleep_retry i 6 0
clientoptions n
memfileblocksize i 2048 512
memfileminsize i 1048576 1024
dbhome s /var/noaaport/nbsp/db
dbcachemb i 256 1
dbextent i 128 1
dbfilemode m 420
qdbfname n q
pctldbfname n pctl.db
pctlmfdbfname n pctlmf.db
queuemaxsoft i 16384 0
queuemaxhard i 131072 0
queue_read_timeout_ms i 1000 0
queue_quota_logperiod_secs i 60 0
pctlmaxsoft i 2048 0
pctlmaxhard i 0 0
pctlmaxmemsoft i 128 0
pctlmaxmemhard i 256 0
pctl_read_timeout_ms i 1000 0
clientqueuedbcachemb i 1 0
clientqueuemaxsoft i 1024 0
clientqueuemaxhard i 2048 0
client_queue_read_timeout_ms i 10000 0
rtxdb_dbfname n
rtxdb_slots u 12000 0
rtxdb_truncate_minutes u 10 1
rtxdb_default_process i 1 0
loadave_max_hard i 0 0
loadave_max_soft i 0 0
loadave_max_sleep_secs i 30 0
loadave_checkperiod_secs i 30 0
loadave_max_rtx_index i 250 0
feedmode i 1 1
masterservers n
slave_masterport s 2210
slave_read_timeout_secs i 10 0
slave_read_timeout_retry i 2 0
slave_reopen_timeout_secs i 1 0
slave_so_rcvbuf i -1 -1
slave_stats_logperiod_secs i 60 0
slave_reject_duplicates i 1 0
infeedfifo s /var/run/nbsp/infeed.fifo
infeedfifomode m 432
infeedfifogrp s noaaport
acceptpatt n
filterqacceptpatt n
serverqacceptpatt n
nbs1acceptpatt n
nbs2acceptpatt n
emwinacceptpatt n
savezacceptpatt n
rtxdbacceptpatt n
'''
# names under which -C prints some of them
PRINTED = dict(devdir='filterdevdir', filterlist='sysfilterlist', qstatefifomode='qstatefifo_mode',
               queuemaxsoft='queuemaxsizesoft', queuemaxhard='queuemaxsizehard', clientqueuemaxsoft='clientqueuemaxsizesoft',
               clientqueuemaxhard='clientqueuemaxsizehard', serverqacceptpatt='serverqpacceptpatt')
OPT = {}
for _l in TABLE.strip().split('\n'):
    _f = _l.split()
    if _f[1] in 'sn':
        OPT[_f[0]] = (_f[1], _f[2].replace('~', ' ') if len(_f) > 2 else None, None, None)
    else:
        OPT[_f[0]] = (_f[1], int(_f[2]), int(_f[3]) if len(_f) > 3 else None, int(_f[4]) if len(_f) > 4 else None)
NAMES = list(OPT)
INTS = [n for n in NAMES if OPT[n][0] in 'iu']
WORDS = ['a', 'nbsp', '/var/x/y.z', '10.0.0.1', 'kjfk', '^kw', '!kwal', '.*', '(a|b)', '1', '0', '-1', '$', '*', 'x' * 300,
         'a=b', '%s%n', 'caf\u00e9', '#', ';', '|', ',', ':']


def braced(s):
    return '{' + s + '}'


class Check:
    pid = 'C20'
    title = 'Every option is what the configuration file sets it to, the default otherwise'
    parts = ['core']
    drivers = ['d_conf']
    quick, thorough = 1600, 80000
    rule = ('a case counts as non-trivial when at least five options are set, or when the configuration must be refused')
    assumptions = ['negative values of unsigned options are not generated', 'the default configuration file of this machine '
                   'does not exist']

    def string(self, src):
        w = src.draw(10)
        if w == 0:
            return ''
        sep = src.pick([' ', ' ', ',', '|', '\n    ', '\t'])
        s = sep.join(src.pick(WORDS) for _ in range(src.wpick((6, 1), (3, src.int(2, 5)), (1, 40))))
        if s.endswith('\\') or s.count('\\') and src.bool(0.9):
            s = s.replace('\\', '/')
        return s

    def setting(self, src, names):
        """(Tcl text, option, value, valid)"""
        n = src.pick(names)
        kind, d, lo, hi = OPT[n]
        if kind in 'sn':
            v = self.string(src)
            if kind == 's' and not v and src.bool(0.6):
                v = 'x'
            w = src.draw(4)
            if '\\' in v or '\n' in v or v == '' or w == 0:
                t = 'set %s %s' % (n, braced(v))
            elif w == 1 and not any(x in v for x in '$[";'):
                t = 'set %s "%s"' % (n, v)
            elif w == 2:
                t = 'set _tmp %s\nset %s $_tmp' % (braced(v), n)
            else:
                t = 'set %s %s' % (n, braced(v[:len(v) // 2])) + '\nappend %s %s' % (n, braced(v[len(v) // 2:]))
            return t, n, v
        if kind == 'm':
            v = src.int(0, 0o7777)
        else:
            a = lo if lo is not None else 0
            b = hi if hi is not None else 2147483647
            v = src.wpick((6, src.int(a, min(b, a + 100))), (2, src.int(a, b)), (1, a), (1, b))
            if src.bool(0.04):
                v = a - src.int(1, 5) if hi is None or src.bool(0.5) else b + src.int(1, 5)
            if kind == 'u':
                v = max(v, 0)
            v = min(v, 2147483647)
        w = src.draw(5)
        if w == 0 and v >= 0:
            t = 'set %s 0x%x' % (n, v)
        elif w == 1 and v >= 0:
            t = 'set %s 0%o' % (n, v)
        elif w == 2:
            t = 'set %s [expr %d + %d]' % (n, v - 7, 7)
        elif w == 3:
            t = 'set %s "%d"; # a comment' % (n, v)
        else:
            t = 'set %s %d' % (n, v)
        return t, n, v

    def gen(self, src):
        k = src.wpick((2, 0), (6, src.int(1, 10)), (4, src.int(10, 60)))
        names = NAMES if src.bool(0.8) else [src.pick(NAMES) for _ in range(4)]
        sets = [list(self.setting(src, names)) for _ in range(k)]
        refs = []
        for _ in range(src.wpick((5, 0), (2, 1), (1, 3))):
            a, b = src.pick(INTS), src.pick([n for n in INTS if OPT[n][0] == 'i' and OPT[n][2] == 0 and OPT[n][3] is None])
            refs.append(['ref', b, a, src.int(1, 3)])
        for r in refs:
            sets.insert(src.draw(len(sets) + 1), r)
        err = src.wpick((12, None), (1, 'int'), (1, 'tcl'), (1, 'nofile'))
        return dict(sets=sets, split=src.draw(len(sets) + 1) if src.bool(0.4) else None, err=[err, src.draw(len(sets) + 1)],
                    cfile=src.bool(0.7), main=src.bool(0.3), comments=src.draw(3))

    def run(self, c, ctx):
        d = ctx.dir()
        val = {n: OPT[n][1] for n in NAMES}
        wild = {n for n in NAMES if isinstance(val[n], str) and val[n].startswith('*')}
        files = [[], []]
        sets = c['sets']
        split = 0 if c['split'] is None else min(c['split'], len(sets))
        if not c['cfile'] or c['main']:
            split = 0
        err, at = c['err']
        for i, s in enumerate(sets + [None]):
            f = files[0 if i < split else 1]
            if i == min(at, len(sets)):
                if err == 'int':
                    f.append('set feedmode abc')
                elif err == 'tcl':
                    f.append('nosuchcommand 1')
            if s is None:
                break
            if s[0] == 'ref':
                _, b, a, q = s
                f.append('set %s [expr {$%s / %d}]' % (b, a, q))
                val[b] = val[a] // q
            else:
                f.append(s[0])
                val[s[1]] = s[2]
                wild.discard(s[1])
        texts = []
        for f in files:
            t = ''
            for x in f:
                if c['comments']:
                    t += ['', '# set spooltype 2\n', '\n\n  ### set feedmode 4\n'][c['comments']]
                t += x + '\n'
            texts.append(t)
        for n, t in zip('ab', texts):
            with open(d + '/' + n, 'w') as f:
                f.write(t)
        refuse = err in ('int', 'tcl')
        second = c['cfile'] or c['main']
        if err == 'nofile' and second:
            os.unlink(d + '/b')
            refuse = True
        outf = d + '/printed'
        if c['main']:
            r = ctx.drive('d_conf', ['main %s %s %s %s' % (hx(outf.encode()), hx(b'-C'), hx(b'-c'), hx((d + '/b').encode()))], d)
        else:
            r = ctx.drive('d_conf', ['load %s %s %s' % (hx(outf.encode()), hx((d + '/' + ('a' if second else 'b')).encode()),
                                                        hx((d + '/b').encode()) if second else '-')], d)
        if r.crash():
            return Outcome(bad=r.crash())
        st = r.get('main' if c['main'] else 'conf')[0][0]
        tags = ['nbspd -C' if c['main'] else 'two files' if split else 'one file']
        key = tuple(texts)
        if refuse:
            return Outcome(bad=None if st != '0' else 'a configuration with an error (%s) was taken' % err, nontrivial=True,
                           key=key, tags=tags + [err])
        if st != '0':
            return Outcome(bad='a valid configuration file is refused: %r' % r.err[-300:], key=key)
        # the values
        if not c['main']:
            got = {}
            for l in r.get('opt'):
                v = l[1]
                got[l[0]] = None if v == '-' else unhx(v).decode('utf8', 'replace') if v[0] in 'xX' else int(v)
            for n in NAMES:
                if n in wild:
                    ok = got[n] is not None and got[n].endswith(val[n][1:])
                else:
                    ok = got[n] == val[n]
                if not ok:
                    return Outcome(bad='%s is %r instead of %r' % (n, got[n], val[n]), key=key)
            invalid = [n for n in NAMES if self.invalid(n, val[n])]
            ok = r.get('valid')[0][0] == '0'
            if ok != (not invalid):
                return Outcome(bad='%s is accepted' % invalid if ok else 'a configuration with all values in range is refused: %r'
                               % r.err[-300:], key=key)
            tags.append('out of range' if invalid else 'in range')
            return Outcome(nontrivial=len(sets) >= 5 or bool(invalid), key=key, tags=tags)
        with open(outf, encoding='utf8', errors='replace') as f:
            printed = '\n' + f.read()
        for n in NAMES:
            v = val[n]
            if n in wild or self.invalid(n, v):
                continue
            s = 'NULL' if v is None else '""' if v == '' else '%o' % v if OPT[n][0] == 'm' else str(v)
            if not any('\n%s %s\n' % (x, s) in printed for x in (n, PRINTED.get(n, n))):
                return Outcome(bad='-C does not print that %s is %r' % (n, s), key=key)
        return Outcome(nontrivial=len(sets) >= 5, key=key, tags=tags)

    @staticmethod
    def invalid(n, v):
        k, _, lo, hi = OPT[n]
        if k == 's':
            return not v
        if k in 'iu':
            return v < lo or (hi is not None and v > hi)
        return False
