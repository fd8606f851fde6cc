"""Runs the Tcl programs and filters of a scratch installation, as an unprivileged user, at a chosen time of day."""
import os, shutil, stat

NOBODY = 65534
CONF = '''
set filterserrlib(usesyslog) 0;
set common(ccbsaved) 1;
'''


def open_path(d):
    """Lets the unprivileged user reach d."""
    while len(d) > 1:
        st = os.stat(d)
        if st.st_uid == os.getuid() and not st.st_mode & stat.S_IXOTH:
            os.chmod(d, st.st_mode | 0o755)
        d = os.path.dirname(d)


class Site:
    """d/etc, d/var: configuration and data; everything below d belongs to the unprivileged user."""

    def __init__(self, ctx, d, conf=''):
        self.ctx, self.d, self.inst = ctx, d, ctx.src['inst']
        self.etc, self.var, self.work = d + '/etc', d + '/var', d + '/work'
        for x in ('etc/defaults', 'etc/site', 'etc/rc.d', 'var/noaaport/data', 'var/noaaport/nbsp/tmp', 'var/log', 'work', 'spool'):
            os.makedirs(d + '/' + x)
        src = self.inst + '/etc/nbsp'
        shutil.copy(src + '/filters.conf-sample', self.etc + '/filters.conf')
        shutil.copy(src + '/filters-gribid.def-sample', self.etc + '/filters-gribid.def')
        self.put('etc/site/filters.conf', CONF + conf)
        open_path(d)

    def sample(self, *names):
        for n in names:
            shutil.copy(self.inst + '/etc/nbsp/%s-sample' % n, self.etc + '/' + n)

    def put(self, rel, data, mtime=None):
        p = os.path.join(self.d, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        if mtime is not None:
            os.utime(p, (mtime, mtime))
        return p

    def own(self):
        for r, ds, fs in os.walk(self.d):
            os.chown(r, NOBODY, NOBODY)
            for f in fs:
                os.lchown(os.path.join(r, f), NOBODY, NOBODY)

    extra = {}

    def env(self, now=None, tz='UTC', preload=True):
        e = {'NBSP_ETC': self.etc, 'NBSP_VAR': self.var, 'TZ': tz, 'HOME': self.work, 'NBSP_NOW': '' if now is None else str(now),
             'PATH': self.inst + '/bin:' + self.inst + '/libexec/nbsp:/usr/bin:/bin', 'LC_ALL': 'C.UTF-8',
             'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:symbolize=0:verify_asan_link_order=0'}
        e.update(self.extra)
        if preload:
            e['LD_PRELOAD'] = self.inst + '/lib/faketime.so'
        return e

    def _argv(self, argv):
        return ['/usr/bin/setpriv', '--reuid=%d' % NOBODY, '--regid=%d' % NOBODY, '--clear-groups', '--'] + argv

    def script(self, name, args=(), stdin=b'', now=None, tz='UTC', cwd=None, timeout=60):
        """Runs a script of the installation: bin/x or libexec/nbsp/x."""
        self.own()
        p = self.inst + '/bin/' + name
        if not os.path.exists(p):
            p = self.inst + '/libexec/nbsp/' + name
        return self.ctx.exec(self._argv(['/usr/bin/tclsh8.6', self.inst + '/lib/wrap.tcl', p] + list(args)), stdin=stdin,
                             cwd=cwd or self.work, timeout=timeout, env=self.env(now, tz))

    def program(self, argv, stdin=b'', now=None, tz='UTC', cwd=None, timeout=60):
        self.own()
        return self.ctx.exec(self._argv(argv), stdin=stdin, cwd=cwd or self.work, timeout=timeout, env=self.env(now, tz))

    def tcl(self, text, now=None, tz='UTC', cwd=None, timeout=60):
        """Runs Tcl text that may load the installation's packages."""
        p = self.put('work/prog.tcl', 'lappend auto_path {%s/libexec/nbsp}\n' % self.inst + text)
        return self.program(['tclsh8.6', p], now=now, tz=tz, cwd=cwd, timeout=timeout)

    def files(self, rel='var/noaaport/data'):
        """relative path -> content (or ('dir',) / ('link', target)) below rel."""
        top = os.path.join(self.d, rel)
        out = {}
        for r, ds, fs in os.walk(top):
            for x in ds + fs:
                p = os.path.join(r, x)
                k = os.path.relpath(p, top)
                if os.path.islink(p):
                    out[k] = ('link', os.readlink(p))
                elif os.path.isdir(p):
                    out[k] = ('dir',)
                else:
                    with open(p, 'rb') as f:
                        out[k] = f.read()
        return out
