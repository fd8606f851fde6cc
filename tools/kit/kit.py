"""Runs a program of driver operations against the nbspd objects in ./_build/src/src (cwd: the repository)."""
import glob, os, re, shutil, struct, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
S = os.path.join(os.getcwd(), '_build/src/src')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
TMP = tempfile.mkdtemp(prefix='demo')


def build(name):
    exe = os.path.join(TMP, name)
    subprocess.check_call(['objcopy', '--redefine-sym', 'main=nbspd_main', S + '/main.o', TMP + '/main_drv.o'])
    no = {'main.o', 'nbspmon.o', 'rnbspmon1.o', 'rnbspmon2.o', 'nbspstate.o'}
    objs = [o for o in glob.glob(S + '/*.o') if os.path.basename(o) not in no]
    objs += glob.glob(S + '/slave*/*.o') + glob.glob(S + '/libtclconf/*.o')
    libs = glob.glob(S + '/libconnth/*.a') + glob.glob(S + '/libqdb/*.a') + glob.glob(S + '/libspoolbdb/*.a')
    mk = open(S + '/Makefile').read()
    ext = [x for x in re.search(r'^LIBS\s*=\s*(.*)$', mk, re.M).group(1).split()
           if x not in ('-lconn', '-lqdb', '-lspoolbdb')]
    inc = re.search(r'^INCDIRS\s*=\s*(.*)$', mk, re.M).group(1).split()
    m = re.search(r'LDFLAGS: (.*)', open(HERE + '/' + name + '.c').read())
    inc += m.group(1).split() if m else []
    subprocess.check_call(['gcc', '-g', '-w', '-DKIT', '-iquote', S, '-iquote', HERE] + inc +
                          ['-o', exe, HERE + '/' + name + '.c', HERE + '/drvrt.c', TMP + '/main_drv.o'] + sorted(objs) +
                          ['-Wl,--start-group'] + sorted(libs) + ['-Wl,--end-group'] + ext + ['-lm'], cwd=S)
    return exe


def hx(b):
    return 'x' + bytes(b).hex()


def unhx(s):
    return bytes.fromhex(s[1:])


class Res:
    pass


def run(exe, prog, timeout=60, dir=None):
    d = dir or tempfile.mkdtemp(dir=TMP)
    b = '\n'.join(prog).encode()
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    o, _ = p.communicate(struct.pack('=II', timeout * 1000, len(d)) + d.encode() + struct.pack('=I', len(b)) + b)
    r = Res()
    r.dir = d
    r.how, r.code = struct.unpack('=ii', o[:8])
    out = open(d + '/out', 'rb').read().decode('latin1')
    r.lines = [l.split(' ') for l in out.split('\n') if l]
    r.ended = r.how == 0 and r.code == 0 and r.lines and r.lines[-1][0] == 'END'
    r.err = open(d + '/err', 'rb').read().decode('latin1')
    return r


def get(r, tag):
    return [l[1:] for l in r.lines if l[0] == tag]


DEF = dict(spooltype=1, spoolsavefmt=0, spooldb_slots=0, rtxdb_slots=4096, rtxdb_default_process=1,
           dbcache_mb=1, memfile_blocksize=4000, memfile_minsize=8192, mspoolbdb_ndb=1, mspoolbdb_nslots=4,
           mspoolbdb_dbcache_mb=8, mspoolbdb_maxsize_per128=64, f_verbose=0, f_loadave_max_rtx=0, pctl_maxsize_soft=0,
           pctl_maxsize_hard=0, pctl_maxmem_soft=0, pctl_maxmem_hard=0, queue_maxsize_soft=0, queue_maxsize_hard=0,
           pctl_read_timeout_ms=30, queue_read_timeout_ms=30)
START, PROGRESS, END, ERROR, COMPRESSED, ABORT, RTX = 1, 2, 4, 8, 16, 32, 16


def frame(seq=1, block=0, tt=START | PROGRESS | END, ctrl=b'', data=b'', nfrag=0, sbnseq=0, flags=0, ptype=1, pcat=1,
          pcode=0, orig=0):
    h = bytes([0xff, 0, 0x14, 0, 3, 1, 0, 0]) + struct.pack('>IH', sbnseq, 0)
    h += struct.pack('>H', sum(h) & 0xffff)
    h += struct.pack('>BBHHHHBBI', 0x14, tt, 52 if block == 0 else 16, block, len(ctrl), len(ctrl) + len(data), 0, 0, seq)
    if block == 0:
        h += struct.pack('>BBHBBHHBBHHHBBIIIHH', 3, 0, 36, 1, flags, 0, 0, ptype, pcat, pcode, nfrag, 0, 0, 0, orig,
                         0, 0, 0, 0)
    return h + ctrl + data


def product(seq, *blocks, hdr=b'SDUS53 KWBC 010203\r\r\n', tt=0, **kw):
    """Frames of a plain product whose first block gets the WMO header in front."""
    n = len(blocks)
    return [frame(seq, i, PROGRESS | tt | (START if i == 0 else 0) | (END if i == n - 1 else 0),
                  data=(hdr if i == 0 else b'') + b, nfrag=n if n > 1 else 0, **kw) for i, b in enumerate(blocks)]


class Pipe:
    """The receive pipeline: feed (channel, frame) pairs, then run."""

    def __init__(self, **kw):
        self.dir = tempfile.mkdtemp(dir=TMP)
        s = dict(DEF)
        s.update(kw)
        for x in ('spool', 'db', 'log', 'cspool'):
            os.makedirs(self.dir + '/' + x)
        d = self.dir
        s.update(spooldir=d + '/spool', dbhome=d + '/db', spooldb_fname=d + '/db/spooldb.save',
                 missinglogfile=d + '/log/missing', rtxlogfile=d + '/log/rtx', statusfile=d + '/log/status',
                 cspoolbdb_dir=d + '/cspool', mspoolbdb_panicfile=d + '/log/panic')
        self.p = ['set %s %s' % (k, v if isinstance(v, int) else '-' if v is None else hx(v.encode()))
                  for k, v in s.items()] + ['start']
        self.k = 0

    def feed(self, *frames, ch=0):
        for f in frames:
            self.p.append('frame %d %s' % (ch, hx(f)))

    def op(self, s):
        self.p.append(s)

    def drain(self):
        f = frame(4000000001 + self.k, data=b'ZZZZ99 KZZZ 010101\r\r\n--sentinel')
        self.p.append('drain 8 %s %d' % (hx(f), 4000000001 + self.k))
        self.k += 1

    def run(self, exe):
        self.drain()
        self.p.append('stop')
        r = run(exe, self.p, dir=self.dir)
        r.files = {}
        for d, _, fs in os.walk(self.dir + '/spool'):
            for f in fs:
                if not f.startswith('kzzz_zzzz99'):
                    r.files[f] = open(d + '/' + f, 'rb').read()
        m = self.dir + '/log/missing'
        r.missing = open(m).read().splitlines() if os.path.exists(m) else []
        r.announced = [int.from_bytes(unhx(l[0])[12:16], 'big') for l in get(r, 'fq')]
        r.announced = [x for x in r.announced if x < 4000000000]
        return r


FAIL = []


def check(cond, what):
    if not cond:
        FAIL.append(what)
        print('FAIL:', what)


def done():
    shutil.rmtree(TMP, ignore_errors=True)
    print('ok' if not FAIL else '%d failed' % len(FAIL))
    sys.exit(1 if FAIL else 0)
