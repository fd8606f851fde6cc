"""Planted bugs: python3 tools/seedtool.py verify ID...   builds, tests and demonstrates seeded/<ID> in a scratch copy
   python3 tools/seedtool.py catch ID... [-c CHECK,..]    runs the property's quick check against it
A scratch copy of /repo is used, so /repo is not touched. seeded/<ID>/edits.py is not kept: see plant()."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = V + '/tools/kit'


def home(id):
    """seeded/ID, or planted-tcl/ID for changes to Tcl files (which vcheck does not take)"""
    d = V + '/planted-tcl/' + id
    return d if os.path.isdir(d) else V + '/seeded/' + id


def plant(id, prop, needs, breaks, edits, demo, drivers=(), libs=(), tcl=False):
    """edits: [(file, old, new)]; demo: python text run as demo.py beside kit.py"""
    d = V + ('/seeded/' if all(f.endswith(('.c', '.h')) for f, _, _ in edits) else '/planted-tcl/') + id
    w = '/tmp/plant.' + id
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f, old, new in edits:
        t = open(w + '/' + f, encoding='latin1', newline='').read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(w + '/' + f, 'w', encoding='latin1', newline='').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w, 'diff'])
    open(d + '/patch.diff', 'wb').write(diff)
    shutil.rmtree(w)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write('from kit import *\n' + demo.strip('\n') + '\n')
    for f in ['kit.py'] + (['tclkit.py', 'faketime.c', 'filterrec.c'] if tcl else []) + (['drvrt.c', 'drvrt.h'] if drivers else []) + [x + '.c' for x in drivers] + (
            ['pbt.py'] + [x + '.py' for x in libs] if libs else []):
        src = [x for x in (KIT + '/' + f, V + '/drv/' + f, V + '/lib/' + f) if os.path.exists(x)][0]
        t = open(src).read().replace('#include <sanitizer/asan_interface.h>',
                                     '#define ASAN_POISON_MEMORY_REGION(a, b)\n#define ASAN_UNPOISON_MEMORY_REGION(a, b)')
        open(d + '/' + f, 'w').write(t)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)


def copy():
    """/repo is rebuilt in place elsewhere: the build scripts use /repo, so bind by copying paths."""


def verify(ids):
    # build.sh and test.sh work on /repo: apply, build, test, demo, undo
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain'])
    for id in ids:
        d = home(id)
        w = '/tmp/seeddemo.' + id
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree(d, w)
        r = {}
        try:
            subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
            t = subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/seedtest.json'], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            j = json.load(open('/tmp/seedtest.json'))
            lost = sorted(base - set(j['passed']))
            r['tests'] = 'ok' if not lost else 'LOST %s %s' % (lost[:3], t.stdout[-300:])
            p = subprocess.run(['bash', w + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=300)
            r['with'] = p.returncode
            r['out'] = p.stdout.decode('latin1')[-400:]
        finally:
            subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
        shutil.rmtree(w)
        print(id, r, flush=True)
    subprocess.check_call(['bash', '/opt/vp/build.sh'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for id in ids:
        w = '/tmp/seeddemo.' + id
        shutil.copytree(home(id), w)
        p = subprocess.run(['bash', w + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=300)
        print(id, 'unchanged:', p.returncode, p.stdout.decode('latin1')[-300:] if p.returncode else '', flush=True)
        shutil.rmtree(w)


def catch(ids, checks=None):
    for id in ids:
        d = home(id)
        w = '/tmp/seedrepo.' + id
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(['git', 'clone', '-q', '/repo', w])
        subprocess.check_call(['git', '-C', w, 'apply', d + '/patch.diff'])
        prop = json.load(open(d + '/meta.json'))['property']
        for c in (checks or [prop]):
            p = subprocess.run([V + '/check', c, '--tier', 'quick'], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, VERIF_REPO=w, VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
            o = p.stdout.decode('latin1')
            print(id, c, 'exit', p.returncode, [l for l in o.splitlines() if 'VIOLATION' in l][:1],
                  o[-400:] if p.returncode != 1 else [l[:300] for l in o.splitlines() if 'VIOLATION' not in l][-3:], flush=True)
        shutil.rmtree(w)


if __name__ == '__main__':
    a = sys.argv[2:]
    if sys.argv[1] == 'verify':
        verify(a)
    elif sys.argv[1] == 'catch':
        c = None
        if '-c' in a:
            i = a.index('-c')
            c = a[i + 1].split(',')
            del a[i:i + 2]
        catch(a, c)
