"""Builds /repo's working tree (ASan, clang) outside /repo, once per tree content.

build.part(name) -> the directory of the built copy, with that part built:
  core   src/ (nbspd, its objects and libraries)
  cli    filters/filterlib/c
  tools  tools/nbspinsert tools/nbspmcast
  utils  utils
  tcl    the Tcl libraries, in place
  inst   an installation of the Tcl programs and filters; the result is its directory (bin, libexec/nbsp, etc/nbsp, ...),
         in which $NBSP_ETC stands for /usr/local/etc/nbsp and $NBSP_VAR for /var
build.driver(name) -> path of /verif/drv/<name>.c linked with nbspd's objects.
"""
import fcntl, glob, hashlib, os, shlex, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.join(VERIF, '.build')
SKIP = {'.git', '_build', 'dev-notes'}
CC = 'clang -fsanitize=address -fno-omit-frame-pointer -O1 -g'
CXX = 'clang++ -fsanitize=address -fno-omit-frame-pointer -O1 -g'
ENVX = {'ASAN_OPTIONS': 'detect_leaks=0', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
        'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'HOME': '/root'}


class BuildError(Exception):
    pass


def _env():
    e = {k: v for k, v in os.environ.items() if k not in ('CFLAGS', 'LDFLAGS', 'MAKEFLAGS', 'CC')}
    e.update(ENVX)
    return e


def tree_hash():
    h = hashlib.sha256()
    for d, dirs, files in os.walk(REPO):
        if d == REPO:
            dirs[:] = [x for x in dirs if x not in SKIP]
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, REPO).encode() + b'\0')
            if os.path.islink(p):
                h.update(os.readlink(p).encode())
            else:
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def _run(cmd, cwd, log, check=True):
    with open(log, 'ab') as lf:
        lf.write(('+ %s (in %s)\n' % (str(cmd)[:300], cwd)).encode())
        lf.flush()
        r = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=_env(), stdout=lf, stderr=lf,
                           stdin=subprocess.DEVNULL)
    if check and r.returncode != 0:
        tail = open(log, 'rb').read()[-3000:].decode('latin1')
        raise BuildError('%s failed in %s\n%s' % (str(cmd)[:300], cwd, tail))
    return r.returncode


_hash = None


class _Lock:
    def __enter__(self):
        os.makedirs(ROOT, exist_ok=True)
        self.f = open(os.path.join(ROOT, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _base():
    global _hash
    if _hash is None:
        _hash = tree_hash()
    b = os.path.join(ROOT, _hash)
    log = os.path.join(b, 'log')
    if not os.path.exists(os.path.join(b, 'ok-base')):
        olds = [os.path.join(ROOT, x) for x in os.listdir(ROOT) if x not in ('lock', 'ccache')]
        olds = sorted([x for x in olds if os.path.isdir(x)], key=os.path.getmtime)
        for x in olds[:-2]:
            shutil.rmtree(x, ignore_errors=True)
        shutil.rmtree(b, ignore_errors=True)
        os.makedirs(b)
        _run(['rsync', '-a'] + ['--exclude=/%s' % s for s in sorted(SKIP)] + [REPO + '/', b + '/src/'], b, log)
        _run('./configure.sh', b + '/src', log)
        open(os.path.join(b, 'ok-base'), 'w').close()
    os.utime(b)
    return b, log


def _make(args='', cc=CC):
    return "make %s .SHELLFLAGS=-ec CC='%s' CXX='%s' CCWFLAGS='-w'" % (args, cc, CXX)


def part(name):
    with _Lock():
        b, log = _base()
        src = b + '/src'
        stamp = b + '/ok-' + name
        if name == 'inst':
            return _inst(b, src, stamp, log)
        if os.path.exists(stamp):
            return src
        if name == 'core':
            cc = CC + ' -include ' + shlex.quote(os.path.join(VERIF, 'drv', 'asan_cleanup.h'))
            _run(_make('-k -j8', cc), src + '/src', log, check=False)
            _run(_make('', cc), src + '/src', log)
        elif name == 'cli':
            d = src + '/filters/filterlib/c'
            _run(_make('common.h strsplit.c strsplit.h'), d, log, check=False)
            ps = []
            for sub in ('dcnids', 'dcgini', 'dcgoesr'):
                ps.append(subprocess.Popen(_make('-k -j4'), shell=True, cwd=d + '/' + sub, env=_env(),
                                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                           stdin=subprocess.DEVNULL))
            _run(_make('-k -j8 nbspfile nbspcat nbsppipe nbspunz nbspz nbspgrib nbspgrib2 nbsprad2info'), d, log,
                 check=False)
            for p in ps:
                p.wait()
            _run(_make(), d, log)
        elif name == 'tools':
            _run(_make(), src + '/tools', log)
        elif name == 'utils':
            _run(_make(), src + '/utils', log)
        elif name == 'tcl':
            for d in ('filters/filterlib/tcl', 'tclmetar', 'tclupperair', 'filters/gisfilter', 'conf'):
                _run(_make(), src + '/' + d, log)
        else:
            raise BuildError('no part ' + name)
        open(stamp, 'w').close()
        return src


TCLDIRS = ['conf', 'scripts', 'tclmetar', 'tclupperair', 'filters/filterlib/tcl', 'filters/gisfilter']


def _reachable(d):
    r = subprocess.run(['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups', 'ls', d], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
    return r.returncode == 0


def _inst(b, src, stamp, log):
    d = b + '/inst'
    if os.path.exists(stamp):
        return open(stamp).read()
    if not _reachable(b):
        import tempfile
        d = tempfile.mkdtemp(prefix='verif-inst-')
        os.chmod(d, 0o755)
    shutil.rmtree(d, ignore_errors=True)
    for x in ('bin', 'sbin', 'etc/nbsp/dist', 'share/nbsp/dist', 'share/doc/nbsp', 'share/man/man1', 'lib'):
        os.makedirs(d + '/' + x)
    for x in ('tclmetar', 'tclupperair', 'tclgempak', 'tclgrads', 'tclldm', 'tclssh', 'tclhttpd'):
        os.makedirs(d + '/libexec/nbsp/' + x)
    dirs = TCLDIRS + sorted(os.path.relpath(os.path.dirname(p), src) for p in glob.glob(src + '/filters/*/tcl/Makefile'))
    done = set()
    for x in dirs:
        if x in done or not os.path.exists(src + '/' + x + '/Makefile'):
            continue
        done.add(x)
        _run(_make('-k'), src + '/' + x, log, check=False)
        _run(_make('-k install DESTDIR=%s' % shlex.quote(d)), src + '/' + x, log, check=False)
    for p in glob.glob(d + '/**/*', recursive=True):
        if not os.path.isfile(p) or os.path.islink(p):
            continue
        t = open(p, 'rb').read()
        if b'\0' in t:
            continue
        n = t.replace(b'/usr/local/etc/nbsp', b'$::env(NBSP_ETC)').replace(b'/var/noaaport', b'$::env(NBSP_VAR)/noaaport')
        n = n.replace(b'/var/log/noaaport', b'$::env(NBSP_VAR)/log').replace(b'/usr/local', d.encode())
        if n != t:
            with open(p, 'wb') as f:
                f.write(n)
    for x in ('nbspfile nbspcat nbsppipe nbspunz nbspz nbspgrib nbspgrib2 nbsprad2info nbspradinfo nbspradgis nbspsat nbspsatinfo '
              'nbspsatgis nbspgoesr nbspgoesrinfo nbspgoesrasc nbspgoesrgis').split():
        os.symlink(src + '/filters/filterlib/c/' + x, d + '/bin/' + x)
    for x in ('nbspinvrm', 'nbspexec', 'nbspqdump'):
        os.path.lexists(d + '/bin/' + x) or os.symlink(src + '/utils/%s/%s' % (x, x), d + '/bin/' + x)
    for x in ('utils/nbspinvrm', 'utils/nbspexec'):
        _run(_make(), src + '/' + x, log, check=False)
    shutil.copy(os.path.join(VERIF, 'drv', 'wrap.tcl'), d + '/lib/wrap.tcl')
    _run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', d + '/lib/faketime.so', os.path.join(VERIF, 'drv', 'faketime.c')], d, log)
    _run(['gcc', '-O1', '-w', '-o', d + '/lib/filterrec', os.path.join(VERIF, 'drv', 'filterrec.c')], d, log)
    with open(stamp, 'w') as f:
        f.write(d)
    return d


def driver(name):
    src = part('core')
    with _Lock():
        b, log = _base()
        d = b + '/drv'
        os.makedirs(d, exist_ok=True)
        exe = os.path.join(d, name)
        deps = [os.path.join(VERIF, 'drv', x) for x in (name + '.c', 'drvrt.c', 'drvrt.h')]
        deps += sorted(glob.glob(os.path.join(VERIF, 'drv', '*.[ch]')))
        if os.path.exists(exe) and all(os.path.getmtime(exe) > os.path.getmtime(x) for x in deps):
            return exe
        s = src + '/src'
        notobj = {'main.o', 'nbspmon.o', 'rnbspmon1.o', 'rnbspmon2.o', 'nbspstate.o'}
        if not os.path.exists(d + '/main_drv.o'):
            _run(['objcopy', '--redefine-sym', 'main=nbspd_main', s + '/main.o', d + '/main_drv.o'], d, log)
        objs = [o for o in glob.glob(s + '/*.o') if os.path.basename(o) not in notobj]
        objs += glob.glob(s + '/slave*/*.o') + glob.glob(s + '/libtclconf/*.o')
        libs = glob.glob(s + '/libconnth/*.a') + glob.glob(s + '/libqdb/*.a') + glob.glob(s + '/libspoolbdb/*.a')
        mk = open(s + '/Makefile').read()
        import re
        m = re.search(r'^LIBS\s*=\s*(.*)$', mk, re.M)
        ext = [x for x in m.group(1).split() if x not in ('-lconn', '-lqdb', '-lspoolbdb')]
        m = re.search(r'^INCDIRS\s*=\s*(.*)$', mk, re.M)
        inc = m.group(1).split()
        m = re.search(r'LDFLAGS: (.*)', open(deps[0]).read())
        inc += m.group(1).split() if m else []
        cmd = CC.split() + ['-w', '-iquote', s, '-iquote', os.path.join(VERIF, 'drv')] + inc + \
            ['-o', exe + '.tmp', deps[0], deps[1], d + '/main_drv.o'] + sorted(objs) + \
            ['-Wl,--start-group'] + sorted(libs) + ['-Wl,--end-group'] + ext + ['-lm']
        _run(cmd, d, log)
        os.rename(exe + '.tmp', exe)
        return exe


def bins():
    """name -> path of the built command-line programs (part must be built)."""
    return os.path.join(ROOT, _hash, 'src', 'filters', 'filterlib', 'c')


if __name__ == '__main__':
    t = time.time()
    for p in sys.argv[1:] or ['core', 'cli', 'tools', 'utils']:
        t0 = time.time()
        try:
            part(p)
        except BuildError as e:
            print(e)
            sys.exit(2)
        print(p, round(time.time() - t0, 1), 's')
