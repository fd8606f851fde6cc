"""Mutation sweep: python3 tools/mutate.py [--seed S] [--out FILE] [--time S] FILE=C01,C02 ...

Makes one small change at a time to the given files of a clone of /repo (/tmp/mut) and runs the given checks on it, until
one catches it.  Prints a line for each mutant; those that survive are what to look at: they keep the behaviour, or the
checks miss something."""
import argparse, os, random, re, subprocess, sys, time
M = '/tmp/mut'
OPS = [(r'(?<![<>=!-])<(?![<=])(?=[^>]*$)', '<='), (r'<=', '<'), (r'(?<![->=])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='),
       (r'&&', '||'), (r'\|\|', '&&'), (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\+\+', '--'), (r' \+ ', ' - '), (r' - ', ' + '),
       (r'= 0;', '= 1;'), (r'= 1;', '= 0;'), (r'= -1;', '= 0;'), (r'= NULL;', None), (r'\bif\((.*)\)\s*\{?$', 'IF0'), (r'\bif\((.*)\)\s*\{?$', 'IF1'),
       (r'^\s+[A-Za-z_][\w>.\[\]-]*\(.*\);$', None), (r'^\s+[\w>.\[\]*-]+ [-+|]?= .*;$', None), (r'\+= ', '= '), (r'^\s+break;$', None), (r'^\s+continue;$', None)]


def mutants(text):
    out = []
    lines = text.split('\n')
    infun = False
    comment = False
    for i, l in enumerate(lines):
        if l[:1] not in ('', ' ', '\t', '}', '/', '#') and l.rstrip().endswith('{') or l.startswith('{'):
            infun = True
        elif l.startswith('}'):
            infun = False
        s = l.strip()
        if '/*' in s and '*/' not in s:
            comment = True
        if comment:
            comment = '*/' not in s
            continue
        if not infun or s.startswith(('*', '/', '#', 'log_', 'assert', 'fprintf(stderr')) or 'log_' in l or '#if' in l:
            continue
        for rx, new in OPS:
            for m in re.finditer(rx, l):
                if new is None:
                    if re.search(r'^\s+(static |const |return|u?int|char|struct|size_t|FILE|time_t|double)', l) or '=' in l and '{' in l:
                        continue
                    x = re.match(r'\s*', l).group(0) + ';'
                elif new in ('IF0', 'IF1'):
                    g = re.search(r'if\((.*)\)(\s*\{?)$', l)
                    if not g:
                        continue
                    x = l[:g.start()] + 'if(%s(%s))%s' % ('0 && ' if new == 'IF0' else '1 || ', g.group(1), g.group(2))
                else:
                    x = l[:m.start()] + new + l[m.end():]
                if x != l:
                    out.append((i, l, x))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--time', type=float, default=3600)
    ap.add_argument('--out', default='/tmp/mut.out')
    ap.add_argument('--per', type=int, default=8, help='mutants per file')
    ap.add_argument('files', nargs='+')
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    if not os.path.isdir(M):
        subprocess.check_call(['git', 'clone', '-q', '/repo', M])
    subprocess.check_call(['git', '-C', M, 'checkout', '-q', '--', '.'])
    subprocess.check_call(['git', '-C', M, 'pull', '-q'])
    todo = []
    for f in a.files:
        name, checks = f.split('=')
        t = open(M + '/' + name, encoding='latin1').read()
        ms = mutants(t)
        rnd.shuffle(ms)
        todo += [(k, name, checks.split(','), m) for k, m in enumerate(ms[:a.per])]
    todo.sort(key=lambda x: x[0])
    end = time.time() + a.time
    out = open(a.out, 'a')
    for k, name, checks, (i, old, new) in todo:
        if time.time() > end:
            break
        t = open(M + '/' + name, encoding='latin1').read().split('\n')
        t[i] = new
        open(M + '/' + name, 'w', encoding='latin1').write('\n'.join(t))
        res = 'SURVIVES'
        t0 = time.time()
        for c in checks:
            try:
                p = subprocess.run(['nice', '-n', '5', './check', c], cwd='/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700,
                                   env=dict(os.environ, VERIF_REPO=M, VERIF_SHRINK_S='1'))
                o, rc = p.stdout.decode('latin1'), p.returncode
            except subprocess.TimeoutExpired:
                o, rc = '', 99
            if 'build failed' in o:
                res = 'nobuild'
                break
            if rc == 1:
                res = 'caught ' + c
                break
            if rc:
                res = 'NOANSWER %s: %s' % (c, o[-300:].replace('\n', ' '))
                if res.startswith('NOANSWER'):
                    break
        out.write('%s | %s:%d | %s | %s | %d s\n' % (res, name, i + 1, old.strip(), new.strip(), time.time() - t0))
        out.flush()
        subprocess.check_call(['git', '-C', M, 'checkout', '-q', '--', '.'])
        subprocess.call('rm -f /verif/replays/*', shell=True)


main()
