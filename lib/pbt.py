"""Property-based testing engine: choice-sequence generators with shrinking.

A check is a class with
    pid, parts (list of build parts), drivers (list), quick, thorough (numbers of cases)
    gen(src) -> case           case: JSON-able (bytes allowed), drawn only from src
    run(case, ctx) -> Outcome  executes the real code, judges it against the oracle
    rule                       what makes a case non-trivial
Cases are numbered; case k of a run draws from Random(pid:seed:k), so what is explored
depends on VERIF_SEED only, not on the number of workers or the speed of the machine.
"""
import binascii, collections, hashlib, json, os, random, select, shutil, signal, struct
import subprocess, sys, tempfile, time, traceback

import build

VERIF = build.VERIF


class HarnessError(Exception):
    """The harness could not decide (never reported as a violation)."""


# ---------------------------------------------------------------- generation
class Src:
    def __init__(self, rng=None, choices=None):
        self.rng, self.choices, self.rec = rng, choices, []

    def draw(self, n):
        """An integer in [0, n); 0 is the simplest."""
        if n <= 1:
            c = 0
        elif self.choices is not None:
            p = len(self.rec)
            c = self.choices[p] if p < len(self.choices) else 0
            if c >= n:
                c = n - 1
        else:
            c = self.rng.randrange(n)
        self.rec.append(c)
        return c

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def wpick(self, *wv):
        """wpick((weight, value), ...)"""
        t = sum(w for w, _ in wv)
        c = self.draw(t)
        for w, v in wv:
            if c < w:
                return v
            c -= w

    def bool(self, p=0.5):
        """True with probability p; shrinks to False."""
        return self.draw(1000) >= 1000 - int(1000 * p)

    def size(self, *bounds):
        """A size; every bound b is a scale, chosen with equal weight: [0, b]."""
        return self.draw(bounds[self.draw(len(bounds))] + 1)

    def near(self, *points):
        """A value at or next to one of the points (never below 0)."""
        return max(0, self.pick(points) + self.pick((0, -1, 1)))

    def data(self, n, kinds='artz'):
        """n bytes; a: constant, r: random, t: text, z: bytes special to these formats."""
        k = self.pick(kinds)
        if k == 'a':
            return bytes([self.pick(b'A\0\xff\n x')]) * n
        seed = self.draw(1 << 32)
        r = random.Random(seed)
        if k == 'r':
            return r.randbytes(n)
        if k == 't':
            return bytes(r.choices(b'ABCDEFGHIJKLMNOPQRSTUVWXYZ 0123456789\r\n', k=n))
        return bytes(r.choices(b'\0\0\x01\x03\r\r\n\n\x78\xda\xff\xff\x1e ZKT@=-_+', k=n))

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.draw(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


# ---------------------------------------------------------------- JSON with bytes
def enc(o):
    if isinstance(o, (bytes, bytearray)):
        o = bytes(o)
        if len(o) > 64 and len(set(o)) == 1:
            return {'$rep': [o[:1].hex(), len(o)]}
        return {'$b': o.hex()}
    if isinstance(o, dict):
        return {k: enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [enc(v) for v in o]
    return o


def dec(o):
    if isinstance(o, dict):
        if set(o) == {'$b'}:
            return bytes.fromhex(o['$b'])
        if set(o) == {'$rep'}:
            return bytes.fromhex(o['$rep'][0]) * o['$rep'][1]
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [dec(v) for v in o]
    return o


def brief(o, lim=60):
    """A shortened printable form for samples and messages."""
    if isinstance(o, (bytes, bytearray)):
        s = repr(bytes(o[:lim]))
        return s if len(o) <= lim else s + '...(%d bytes)' % len(o)
    if isinstance(o, dict):
        return {k: brief(v, lim) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        r = [brief(v, lim) for v in o[:12]]
        return r if len(o) <= 12 else r + ['...(%d items)' % len(o)]
    return o


class Outcome:
    def __init__(self, bad=None, nontrivial=False, key=None, tags=(), finding=None):
        self.bad = bad                  # None, or what is wrong
        self.nontrivial = nontrivial
        self.key = key                  # what makes two cases the same (default: the case)
        self.tags = tags
        self.finding = finding          # id of a known-findings entry this failure matches


# ---------------------------------------------------------------- running code
class Result:
    def __init__(self, how, code, outb, err):
        self.how, self.code, self.raw, self.err = how, code, outb, err
        self.lines = [l.split(' ') for l in outb.decode('latin1').split('\n') if l]

    @property
    def ended(self):
        return self.how == 0 and self.code == 0 and bool(self.lines) and self.lines[-1][0] == 'END'

    def crash(self):
        """None, or how the program under test ended abnormally."""
        if b'DRIVER-ERROR' in self.err:
            raise HarnessError(self.err.decode('latin1')[-500:])
        if self.how == 2:
            return 'no end within the time limit (last result: %s)' % (' '.join(self.lines[-1])[:200] if self.lines
                                                                     else 'none')
        if self.ended:
            return None
        e = self.err.decode('latin1')
        for mark in ('ERROR: AddressSanitizer', 'Assertion', 'runtime error'):
            i = e.find(mark)
            if i >= 0:
                return 'crash: ' + e[i:i + 600]
        return 'ended by %s %d: %s' % ('exit' if self.how == 0 else 'signal', self.code, e[-300:])

    def get(self, tag):
        return [l[1:] for l in self.lines if l[0] == tag]


def hx(b):
    return 'x' + bytes(b).hex()


def unhx(s):
    return bytes.fromhex(s[1:])


class Driver:
    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def start(self):
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = ('detect_leaks=0:exitcode=99:symbolize=0:allocator_may_return_null=1:'
                             'detect_stack_use_after_return=0:handle_abort=0')
        e['TZ'] = 'UTC'
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=e, start_new_session=True)

    def run(self, prog, dir, timeout=60):
        if self.p is None or self.p.poll() is not None:
            self.start()
        if isinstance(prog, list):
            prog = '\n'.join(prog)
        if isinstance(prog, str):
            prog = prog.encode('latin1')
        d = dir.encode()
        self.p.stdin.write(struct.pack('=II', int(timeout * 1000), len(d)) + d + struct.pack('=I', len(prog)) + prog)
        self.p.stdin.flush()
        a = self.p.stdout.read(8)
        if len(a) != 8:
            raise HarnessError('fork server ended')
        how, code = struct.unpack('=ii', a)
        rd = lambda f: open(f, 'rb').read() if os.path.exists(f) else b''
        return Result(how, code, rd(dir + '/out'), rd(dir + '/err'))

    def stop(self):
        if self.p:
            self.p.stdin.close()
            try:
                self.p.wait(5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p = None


class Ctx:
    """What a worker needs to run cases: fork servers, scratch directory, binaries."""

    def __init__(self, check, base, wid):
        self.check = check
        self.scratch = os.path.join(base, 'w%d' % wid)
        os.makedirs(self.scratch)
        self.n = 0
        self.drv = {d: Driver(build.driver(d)) for d in check.drivers}
        self.src = {p: build.part(p) for p in check.parts}
        self.cleanups = []

    def dir(self):
        """A fresh empty scratch directory; the earlier ones are removed."""
        d = os.path.join(self.scratch, 'd%d' % self.n)
        shutil.rmtree(d, ignore_errors=True)
        self.n += 1
        d = os.path.join(self.scratch, 'd%d' % self.n)
        os.makedirs(d)
        return d

    def drive(self, name, prog, dir=None, timeout=25):
        return self.drv[name].run(prog, dir or self.dir(), timeout)

    def cli(self, name):
        return os.path.join(self.src['cli'], 'filters/filterlib/c', name)

    def exec(self, argv, stdin=b'', cwd=None, timeout=60, env=None):
        """Runs a program; Result-like: .code .out .err .crash"""
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = ('detect_leaks=0:exitcode=99:symbolize=0:allocator_may_return_null=1:handle_abort=0:'
                             'detect_stack_use_after_return=0')
        e['TZ'] = 'UTC'
        e['LC_ALL'] = 'C'
        if env:
            e.update(env)
        p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             cwd=cwd, env=e, start_new_session=True)
        try:
            o, er = p.communicate(stdin, timeout)
            tmo = False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, er = p.communicate()
            tmo = True
        return Exec(argv, p.returncode, o, er, tmo)

    def close(self):
        for f in self.cleanups:
            try:
                f()
            except Exception:
                pass
        for d in self.drv.values():
            d.stop()
        os.environ.get("KEEP") or shutil.rmtree(self.scratch, ignore_errors=True)


class Exec:
    def __init__(self, argv, code, out, err, tmo):
        self.argv, self.code, self.out, self.err, self.tmo = argv, code, out, err, tmo

    @property
    def crash(self):
        if self.tmo:
            return 'no end within the time limit'
        e = self.err.decode('latin1')
        i = e.find('ERROR: AddressSanitizer')
        if i >= 0:
            return 'crash: ' + e[i:i + 600]
        if self.code < 0:
            return 'ended by signal %d: %s' % (-self.code, e[-300:])
        if self.code == 99:
            return 'crash: ' + e[:600]
        return None


# ---------------------------------------------------------------- shrinking
def shrink(choices, still_fails, budget_s, max_runs=4000):
    """Greedy reduction of a choice sequence; still_fails(choices) -> recorded choices or None."""
    t_end = time.time() + budget_s
    best = list(choices)
    runs = [0]

    def attempt(c):
        if runs[0] >= max_runs or time.time() > t_end:
            return None
        runs[0] += 1
        return still_fails(c)

    def better(a, b):
        return (len(a), sum(min(x, 1 << 20) for x in a), a) < (len(b), sum(min(x, 1 << 20) for x in b), b)

    improved = True
    while improved and time.time() < t_end and runs[0] < max_runs:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                c = best[:i] + best[i + size:]
                r = attempt(c)
                if r is not None and better(r, best):
                    best = r
                    improved = True
                else:
                    i += size
                if time.time() > t_end:
                    return best
            size //= 2
        i = 0
        while i < len(best):
            v = best[i]
            if v:
                for nv in (0, 1, v // 2, v - 1):
                    if nv >= v or i >= len(best):
                        continue
                    c = list(best)
                    c[i] = nv
                    r = attempt(c)
                    if r is not None and better(r, best):
                        best = r
                        improved = True
                        break
            i += 1
            if time.time() > t_end:
                break
    return best


# ---------------------------------------------------------------- the run
def case_rng(pid, seed, k):
    return random.Random('%s:%s:%d' % (pid, seed, k))


def run_case(check, case, ctx):
    try:
        o = check.run(case, ctx)
    except (HarnessError, build.BuildError):
        raise
    return o if o is not None else Outcome()


def worker(check, base, wid, nw, ncases, seed, t_end, wfd, stopfd):
    w = os.fdopen(wfd, 'wb')

    def send(o):
        w.write((json.dumps(o) + '\n').encode())
        w.flush()

    try:
        ctx = Ctx(check, base, wid)
        n = 0
        keys, samples, tags = set(), [], collections.Counter()
        nt = 0
        found = {}
        status = 'ok'
        known = known_findings(check.pid)
        for k in range(wid, ncases, nw):
            if time.time() > t_end:
                status = 'time'
                break
            if select.select([stopfd], [], [], 0)[0]:
                status = 'stopped'
                break
            src = Src(case_rng(check.pid, seed, k))
            case = check.gen(src)
            o = run_case(check, case, ctx)
            n += getattr(o, 'evals', 1)
            for t in o.tags:
                tags[t] += 1
            if o.nontrivial:
                nt += 1
                kk = o.key if o.key is not None else json.dumps(enc(case), sort_keys=True)
                keys.add(hashlib.blake2b(repr(kk).encode(), digest_size=8).hexdigest())
                if len(samples) < 2 and k >= wid + nw * 2:
                    samples.append({'case': k, 'input': brief(enc_brief(case))})
            if o.bad:
                if o.finding and o.finding in known:
                    found[o.finding] = found.get(o.finding, 0) + 1
                    continue
                v = settle(check, ctx, case, src.rec, o, k, known)
                if v['confirmed']:
                    send({'violation': v})
                    status = 'violation'
                    break
                tags['unconfirmed failure: ' + o.bad[:80]] += 1
        send({'done': status, 'n': n, 'keys': sorted(keys), 'nt': nt, 'samples': samples, 'tags': tags,
              'findings': found})
        ctx.close()
    except (HarnessError, build.BuildError) as e:
        send({'error': str(e)})
    except BaseException:
        send({'error': traceback.format_exc()})
    w.close()
    os._exit(0)


def enc_brief(case):
    return case


def settle(check, ctx, case, choices, o, k, known):
    """Shrinks a failing case and re-runs it; only what fails again every time is reported."""
    # schedule-dependent outcomes ask for k failures in at most n further runs
    conf_n, conf_k = getattr(o, 'confirm', None) or getattr(check, 'confirm', (3, 3))

    def fails(c):
        s = Src(choices=c)
        try:
            cs = check.gen(s)
            oo = run_case(check, cs, ctx)
        except HarnessError:
            return None
        if oo.bad and not (oo.finding and oo.finding in known):
            return s.rec
        return None

    best = shrink(choices, fails, float(os.environ.get('VERIF_SHRINK_S') or getattr(check, 'shrink_s', 40))) if conf_k == conf_n else list(choices)
    for cand in (best, choices):
        s = Src(choices=cand)
        cs = check.gen(s)
        hits, bad, t0 = 0, None, time.time()
        for i in range(conf_n):
            try:
                oo = run_case(check, cs, ctx)
            except HarnessError:
                continue
            if oo.bad and not (oo.finding and oo.finding in known):
                hits += 1
                bad = oo.bad
            # of slow cases two failures in a row are enough
            if hits >= conf_k or hits == i + 1 >= 2 and time.time() - t0 > 60:
                hits = max(hits, conf_k)
                break
        if hits >= conf_k:
            return {'confirmed': True, 'case': enc(cs), 'bad': bad, 'k': k, 'choices': len(cand),
                    'original_choices': len(choices)}
    return {'confirmed': False}


def known_findings(pid):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {e['id']: e for e in d.get('findings', []) if e['property'] == pid}


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > (2 << 30):
                return tempfile.mkdtemp(prefix='vrf.', dir=d)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix='vrf.')


def main(check, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('-n', type=int)
    ap.add_argument('-k', type=int, help='run only case K, verbosely')
    ap.add_argument('-j', type=int, default=getattr(check, 'jobs', 8))
    a = ap.parse_args(argv)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    base = scratch_base()
    rc = 2
    try:
        try:
            for p in check.parts:
                build.part(p)
            for d in check.drivers:
                build.driver(d)
            if hasattr(check, 'setup'):
                check.setup()
        except build.BuildError as e:
            print('build failed: %s' % e)
            return 2
        t_build = time.time() - t0
        if a.replay or a.k is not None:
            ctx = Ctx(check, base, 0)
            if a.replay:
                case = dec(json.load(open(a.replay))['case'])
            else:
                case = check.gen(Src(case_rng(check.pid, seed, a.k)))
            if a.k is not None:
                print(json.dumps(brief(case), indent=1, default=str))
            o = run_case(check, case, ctx)
            print('tags', list(o.tags), 'nontrivial', o.nontrivial)
            if o.bad:
                print('FAILS: ' + o.bad)
                if a.replay:
                    print('VIOLATION property=%s replay=%s' % (check.pid, a.replay))
            else:
                print('holds')
            ctx.close()
            return 1 if o.bad else 0
        rc = explore(check, a, tier, seed, base, t0, t_build)
    finally:
        os.environ.get("KEEP") or shutil.rmtree(base, ignore_errors=True)
    return rc


def explore(check, a, tier, seed, base, t0, t_build):
    ncases = a.n or getattr(check, tier)
    nw = max(1, min(a.j, ncases))
    cap = 500 if tier == 'quick' else getattr(check, 'thorough_cap', 3 * 3600)
    t_end = time.time() + cap
    stop_r, stop_w = os.pipe()
    ps = []
    for wid in range(nw):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            worker(check, base, wid, nw, ncases, seed, t_end, w, stop_r)
            os._exit(0)
        os.close(w)
        ps.append((pid, r))
    bufs = {r: b'' for _, r in ps}
    msgs = []
    live = set(bufs)
    while live:
        for r in select.select(list(live), [], [])[0]:
            d = os.read(r, 1 << 20)
            if not d:
                live.discard(r)
                os.close(r)
                continue
            bufs[r] += d
            while b'\n' in bufs[r]:
                l, bufs[r] = bufs[r].split(b'\n', 1)
                m = json.loads(l)
                msgs.append(m)
                if 'violation' in m or 'error' in m:
                    os.write(stop_w, b'x')
    for pid, _ in ps:
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    errs = [m['error'] for m in msgs if 'error' in m]
    viol = [m['violation'] for m in msgs if 'violation' in m]
    done = [m for m in msgs if 'done' in m]
    keys = set()
    tags = collections.Counter()
    finds = collections.Counter()
    samples = []
    for m in done:
        keys.update(m['keys'])
        tags.update(m['tags'])
        finds.update(m['findings'])
        samples += m['samples']
    n = sum(m['n'] for m in done)
    if len(done) + len(errs) < nw:
        errs.append('a worker ended without a report')
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    rfile = None
    if viol:
        v = min(viol, key=lambda v: (v['choices'], v['k']))
        rfile = os.path.join(rdir, '%s-seed%d-case%d.json' % (check.pid, seed, v['k']))
        with open(rfile, 'w') as f:
            json.dump({'property': check.pid, 'seed': seed, 'case_number': v['k'], 'what': v['bad'],
                       'case': v['case'], 'replay_cmd': './check %s --replay %s' % (check.pid, rfile)}, f, indent=1)
        print('%s\n  %s' % (check.title if hasattr(check, 'title') else check.pid, v['bad'][:2000]))
        print('  reduced from %d to %d choices; case: %s' % (v['original_choices'], v['choices'],
                                                              json.dumps(brief(dec(v['case'])), default=str)[:1500]))
    kf = known_findings(check.pid)
    for fid, e in kf.items():
        # every listed finding is confirmed on this run (the entry names its input) or reported as listed
        print('KNOWN-FINDING: property=%s %s (seen %d times in this run)' % (check.pid, e['what'], finds.get(fid, 0)))
    cov = {
        'evaluations': n,
        'distinct_nontrivial': len(keys),
        'rule': check.rule,
        'samples': samples[:5] or [{'note': 'no non-trivial case was reached before the run ended'}],
        'distribution': dict(tags.most_common(60)),
        'cases_requested': ncases,
        'workers': nw,
        'build_s': round(t_build, 1),
        'stopped_by_time_cap': any(m['done'] == 'time' for m in done),
        'known_findings_seen': dict(finds),
    }
    ev = {'property': check.pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
          'assumptions': list(getattr(check, 'assumptions', []))}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ep = os.path.join(VERIF, 'evidence', check.pid + '.json')
    with open(ep + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(ep + '.tmp', ep)
    print('%s: %d cases, %d distinct non-trivial, %d violations, %.1f s (build %.1f s)' % (
        check.pid, n, len(keys), len(viol), time.time() - t0, t_build))
    if viol:
        print('VIOLATION property=%s replay=%s' % (check.pid, rfile))
        return 1
    if errs:
        print('ERROR in the check: ' + errs[0][-3000:])
        return 2
    if n == 0 or len(keys) == 0:
        print('ERROR: nothing non-trivial was explored')
        return 2
    return 0
