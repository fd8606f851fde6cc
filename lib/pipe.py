"""Runs frames through the real receive pipeline (driver d_core) and collects what it produced."""
import os, struct
import sbn
from pbt import hx, unhx, HarnessError

SENT_CH = 8
SENT_SEQ = 4000000001


def sentinel(n=0):
    return sbn.frame(seq=SENT_SEQ + n, tt=sbn.START | sbn.PROGRESS | sbn.END, nfrag=0,
                     data=b'ZZZZ99 KZZZ 010101\r\r\n--sentinel')


def with_sentinel(patt):
    """An accept pattern list that also accepts the sentinel product."""
    return None if patt is None else patt + (',' if patt else '') + '^kzzz_zzzz99$'


DEFAULTS = dict(spooltype=1, spoolsavefmt=0, spooldb_slots=0, rtxdb_slots=4096, rtxdb_default_process=1,
                dbcache_mb=1, memfile_blocksize=4000, memfile_minsize=8192, mspoolbdb_ndb=1,
                mspoolbdb_nslots=4, mspoolbdb_dbcache_mb=8, mspoolbdb_maxsize_per128=64, f_verbose=0,
                f_loadave_max_rtx=0, pctl_maxsize_soft=0, pctl_maxsize_hard=0, pctl_maxmem_soft=0,
                pctl_maxmem_hard=0, queue_maxsize_soft=0, queue_maxsize_hard=0, pctl_read_timeout_ms=30,
                queue_read_timeout_ms=30)


class Run:
    """Builds a program for d_core; run() executes it and returns an Obs."""

    def __init__(self, ctx, settings=None, dir=None):
        self.ctx = ctx
        self.dir = dir or ctx.dir()
        self.spool = self.dir + '/spool'
        s = dict(DEFAULTS)
        s.update(settings or {})
        for d in ('spool', 'db', 'log', 'cspool'):
            os.makedirs(os.path.join(self.dir, d), exist_ok=True)
        paths = dict(spooldir=self.spool, dbhome=self.dir + '/db', spooldb_fname=self.dir + '/db/spooldb.save',
                     missinglogfile=self.dir + '/log/missing', rtxlogfile=self.dir + '/log/rtx',
                     statusfile=self.dir + '/log/status', cspoolbdb_dir=self.dir + '/cspool',
                     mspoolbdb_panicfile=self.dir + '/log/panic')
        self.prog = []
        for k, v in list(paths.items()) + sorted(s.items()):
            if isinstance(v, int):
                self.prog.append('set %s %d' % (k, v))
            elif v is None:
                self.prog.append('set %s -' % k)
            else:
                self.prog.append('set %s %s' % (k, hx(v.encode('latin1'))))
        self.prog.append('start')
        self.nsent = 0

    def op(self, *a):
        self.prog.append(' '.join(str(x) for x in a))

    def frame(self, ch, raw):
        self.op('frame', ch, hx(raw))

    def threads(self, by_ch):
        a = []
        for ch, fr in by_ch.items():
            a += [ch, len(fr)] + [hx(f) for f in fr]
        self.op('threads', *a)

    def drain(self):
        self.op('drain', SENT_CH, hx(sentinel(self.nsent)), SENT_SEQ + self.nsent)
        self.nsent += 1

    def run(self, driver='d_core', timeout=30):
        return Obs(self, self.ctx.drive(driver, self.prog, self.dir, timeout))


class Obs:
    def __init__(self, run, res):
        self.res, self.dir, self.spool = res, run.dir, run.spool
        self.crash = res.crash()
        self.bad = self.crash
        self.ann, self.sann = [], []
        if self.bad:
            return
        if ['0'] != (res.get('start') or [['?']])[0]:
            raise HarnessError('pipeline did not start: %r %r' % (res.lines[:5], res.err[-400:]))
        df = res.get('drainfail')
        if df:
            self.bad = 'the pipeline did not announce the last product: %s' % ' '.join(df[0])
        self.drains = len(res.get('drained'))
        for tag, l in (('fq', self.ann), ('sq', self.sann)):
            for v in res.get(tag):
                try:
                    a = sbn.parse_announce(unhx(v[0]))
                except ValueError as e:
                    self.bad = self.bad or 'malformed announcement: %s' % e
                    continue
                if a[0] < SENT_SEQ:
                    l.append(a)
        self.status = [int(l[0]) for l in res.get('f')]

    def files(self):
        """path -> content of everything under the spool directory but the sentinel."""
        r = {}
        for d, _, fs in os.walk(self.spool):
            for f in fs:
                p = os.path.join(d, f)
                if '/kzzz/kzzz_zzzz99.' in p:
                    continue
                with open(p, 'rb') as h:
                    r[p] = h.read()
        return r

    def log(self, name):
        p = self.dir + '/log/' + name
        if not os.path.exists(p):
            return []
        return [l.split(' ') for l in open(p, 'rb').read().decode('latin1').splitlines()]

    def missing(self):
        return [(int(l[1]), int(l[2]), int(l[3]), int(l[4]), int(l[5]), l[6]) for l in self.log('missing')]

    def rtxlog(self):
        return [(int(l[1]), int(l[2]), int(l[3]), int(l[4]), int(l[5]), l[6], int(l[7])) for l in self.log('rtx')]


def diff_files(want, got, what='spool file'):
    for p in sorted(set(want) | set(got)):
        if p not in got:
            return '%s %s is missing' % (what, p)
        if p not in want:
            return 'unexpected %s %s (%d bytes)' % (what, p, len(got[p]))
        if want[p] != got[p]:
            a, b = want[p], got[p]
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            return '%s %s differs at byte %d: expected %r (%d bytes), found %r (%d bytes)' % (
                what, p, i, a[i:i + 16], len(a), b[i:i + 16], len(b))
    return None


def per_channel(anns):
    r = {}
    for a in anns:
        r.setdefault(a[4], []).append(a)
    return r
