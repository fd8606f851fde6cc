"""A scratch installation of the Tcl programs built in ./_build/src (cwd: the repository), run as nobody."""
import glob, os, re, shutil, subprocess
from kit import TMP, HERE
B = os.path.join(os.getcwd(), '_build/src')
LIB, ETC, VAR, WORK, BIN = (TMP + '/' + x for x in ('lib', 'etc', 'var', 'work', 'bin'))
os.chmod(TMP, 0o755)
for x in (LIB, LIB + '/tclmetar', LIB + '/tclupperair', ETC + '/site', VAR + '/log', VAR + '/noaaport/data', WORK, BIN):
    os.makedirs(x)


def _put(dst, src):
    t = open(src, 'rb').read()
    if b'\0' not in t:
        for a, b in (('/usr/local/libexec/nbsp', LIB), ('/usr/local/etc/nbsp', ETC), ('/var/noaaport', VAR + '/noaaport'), ('/var/log/noaaport', VAR + '/log'),
                     ('/usr/local/bin', BIN), ('#!%TCLSH%', '#!/usr/bin/tclsh8.6')):
            t = t.replace(a.encode(), b.encode())
    open(dst, 'wb').write(t)
    os.chmod(dst, 0o755)


SAMPLES = {}
for p in sorted(glob.glob(B + '/filters/*/tcl/*') + glob.glob(B + '/conf/*') + glob.glob(B + '/scripts/*.tcl')):
    b = os.path.basename(p)
    if os.path.isdir(p) or b.startswith('Makefile') or b.endswith('.in') or b.startswith('configure'):
        continue
    if b.endswith('-sample'):
        SAMPLES[b[:-7]] = p
    elif b.endswith('.tcl'):
        _put(LIB + '/' + b, p)
        _put(LIB + '/' + b[:-4], p)
    elif re.search(r'\.(init|lib|def|conf|rc)\d?$', b) or b'tclsh' in open(p, 'rb').readline():
        _put(LIB + '/' + b, p)
for p in glob.glob(B + '/tclmetar/tclmetar/src/lib/*.tcl'):
    _put(LIB + '/tclmetar/' + os.path.basename(p), p)
for p in glob.glob(B + '/tclupperair/**/src/lib/*.tcl', recursive=True):
    _put(LIB + '/tclupperair/' + os.path.basename(p), p)
for p in glob.glob(B + '/filters/filterlib/c/nbsp*') + [B + '/utils/nbspinvrm/nbspinvrm']:
    if os.access(p, os.X_OK) and os.path.isfile(p):
        shutil.copy(p, BIN)
_put(LIB + '/nbspmtrd', B + '/tclmetar/nbspmtrd')
for x in ('nbspcleanup', 'nbspmtrcsv', 'nbspmtrd'):
    if os.path.exists(LIB + '/' + x):
        shutil.copy(LIB + '/' + x, BIN)


def sample(*names):
    for n in names:
        _put(ETC + '/' + n, SAMPLES[n])


sample('filters.conf', 'filters-gribid.def')
CONF = 'set filterserrlib(usesyslog) 0;\nset common(ccbsaved) 1;\nset env(PATH) {%s:%s:/usr/bin:/bin};\n' % (BIN, LIB)
open(ETC + '/site/filters.conf', 'w').write(CONF)
subprocess.check_call(['gcc', '-w', '-shared', '-fPIC', '-o', TMP + '/faketime.so', HERE + '/faketime.c'])
subprocess.check_call(['gcc', '-w', '-o', TMP + '/filterrec', HERE + '/filterrec.c'])


def put(path, data, mode=None, mtime=None):
    p = os.path.join(TMP, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, 'wb').write(data if isinstance(data, bytes) else data.encode())
    if mode:
        os.chmod(p, mode)
    if mtime:
        os.utime(p, (mtime, mtime))
    return p


def conf(name, text):
    put('etc/' + name, text)


def run(script, *args, stdin='', now=None, tz='UTC', env=None, timeout=100):
    """(code, output)"""
    for d, ds, fs in os.walk(TMP):
        for x in [d] + [d + '/' + f for f in fs]:
            os.lchown(x, 65534, 65534)
    e = dict(os.environ, TZ=tz, LC_ALL='C.UTF-8', PATH=BIN + ':' + LIB + ':/usr/bin:/bin', HOME=WORK)
    if now is not None:
        e.update(NBSP_NOW=str(now), LD_PRELOAD=TMP + '/faketime.so')
    e.update(env or {})
    s = LIB + '/' + script
    a = ['tclsh8.6', s] if os.path.exists(s) else [BIN + '/' + script]
    p = subprocess.run(['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups'] + a + list(args), input=stdin.encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, env=e, cwd=WORK, timeout=timeout)
    return p.returncode, p.stdout.decode('latin1')


def start(script, *args, now=None, tz='UTC', env=None):
    """A program that reads lines: .stdin, .stdout"""
    for d, ds, fs in os.walk(TMP):
        for x in [d] + [d + '/' + f for f in fs]:
            os.lchown(x, 65534, 65534)
    e = dict(os.environ, TZ=tz, LC_ALL='C.UTF-8', PATH=BIN + ':' + LIB + ':/usr/bin:/bin', HOME=WORK)
    if now is not None:
        e.update(NBSP_NOW=str(now), LD_PRELOAD=TMP + '/faketime.so')
    e.update(env or {})
    return subprocess.Popen(['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups', 'tclsh8.6', LIB + '/' + script] + list(args),
                            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=WORK)


def tcl(text, **k):
    put('lib/prog__.tcl', 'lappend auto_path {%s}\n' % LIB + text)
    return run('prog__.tcl', **k)
