"""The input fifo and the program that feeds it: real slave thread, real nbspinsert."""
import os, select, struct, subprocess, time
import net, pipe, sbn
from pbt import Outcome, hx, unhx

NAMES = ['kwbc_sdus53-n0rddc', 'tjsj_fxus61+rra', 'knes_tige01', 'x', 'kwbc_abcdef-ghijkl', 'a.b-c_d']
BADNUM = ['', 'x', '1x', '4294967296', '-1', '99999999999999999999', '0x1', '256', '4294967297', '-', '1 ', '18446744073709551615',
          '-4294967295']


def finfo(seq, a, name, path):
    s = ('%s %s %s %s %s %s %s' % (seq, *a, name, path)).encode('latin1')
    return struct.pack('>I', len(s)) + s + b'\n'


class Check:
    pid = 'C14'
    title = 'Files inserted through the input fifo are announced exactly'
    parts = ['core', 'tools']
    drivers = ['d_net']
    quick, thorough = 3000, 60000
    rule = ('a case counts as non-trivial when at least two files were inserted and nbspinsert sent one of them, a malformed '
            'message was written or the messages were written in pieces')
    assumptions = ['what else was in the fifo when a malformed message is read may be lost']

    def gen(self, src):
        if src.bool(0.06):
            return {'mode': 'many', 'n': src.int(2, 6), 'size': src.wpick((1, 300), (2, 9000), (2, 30000)), 'i': src.bool(0.5)}
        if src.bool(0.06):
            L = []
            for i in range(src.wpick((1, 0), (4, src.int(1, 6)), (1, 40))):
                L.append([str(x) for x in (src.pick([i, 77000, 4294967295 - i]), src.draw(256), src.draw(256), src.draw(256), src.draw(9))] +
                         [src.pick(NAMES), '/' + 'd' * src.wpick((4, src.int(1, 60)), (1, src.int(900, 1100)), (1, 3000))])
            return {'mode': 'list', 'list': L, 'blank': [i for i in range(len(L)) if src.bool(0.1)], 'nonl': src.bool(0.2),
                    'bad': src.wpick((4, None), (1, (src.draw(max(1, len(L))), src.draw(6), src.pick(BADNUM)))) if L else None}
        batches, seq = [], src.pick([1, 77000, 3000000000])
        ins = src.bool(0.15)
        trunc = src.bool(0.005)
        nb = src.int(1, 4)
        for b in range(nb):
            ms = []
            for _ in range(src.int(0 if b else 1, 5)):
                seq += 1
                m = dict(seq=seq, a=[src.pick([0, 1, 127, 128, 200, 255]) if src.bool(0.5) else src.draw(256) for _ in range(4)],
                         name=src.pick(NAMES), base=('b' * src.wpick((4, 12), (1, 36), (1, 1))), dirlen=src.wpick((4, 0), (1, -1)))
                if ins and src.bool(0.6):
                    m['ins'] = True
                    if src.bool(0.25):
                        m['badarg'] = (src.draw(5), src.pick(BADNUM))
                    if src.bool(0.3):
                        m['data'] = src.data(src.size(10, 1024, 5000))
                        m['old'] = src.data(src.size(0, 1024, 5000))
                ms.append(m)
            bad = None
            if src.bool(0.5) or b < nb - 1:
                bad = src.wpick((1, 'nonl'), (1, 'few'), (1, 'text'), (1, 'longpath'), (1, 'longbase'), (1, 'longname'),
                                (1, 'size'), (1, 'zero'), (1, 'oneblank'), (1 if trunc else 0, 'partial'))
            batches.append((ms, (bad, src.draw(1 << 30)) if bad else None, src.draw(1 << 30)))
        return {'mode': 'history', 'batches': batches, 'fq': src.pick([None, None, 'kwbc', '!x,k']),
                'sq': src.pick([None, None, '^k', '']), 'ins': ins, 'trunc': trunc}

    def bad(self, kind, sd, room):
        good = ['7', [1, 2, 3, 4], 'kwbc_x', '/s/zz']
        if kind == 'nonl':
            return finfo(*good)[:-1] + b'x'
        if kind == 'few':
            s = [b'7 1 2 3 kwbc_x', b'7', b'7 1 2 3', b'7 1 2 3 x kwbc_x /s/zz'][sd % 4]
            return struct.pack('>I', len(s)) + s + b'\n'
        if kind == 'text':
            s = bytes((sd >> i) % 251 + 1 for i in range(24)).replace(b'\n', b'n').replace(b' ', b'_')
            return struct.pack('>I', len(s)) + s + b'\n'
        if kind == 'oneblank':
            s = b'7\t1\t2\t3\t4\tn /x'
            return struct.pack('>I', len(s)) + s + b'\n'
        if kind == 'longpath':
            return finfo('7', [1, 2, 3, 4], 'kwbc_x', '/' + 'd' * (room - 3 + sd % 2000) + '/zz')
        if kind == 'longbase':
            return finfo('7', [1, 2, 3, 4], 'kwbc_x', '/s/' + 'z' * 37)
        if kind == 'longname':
            return finfo('7', [1, 2, 3, 4], 'k' * (19 + sd % 50), '/s/zz')
        if kind == 'size':
            return struct.pack('>I', [0xffffffff, 0x7fffffff, 0x80000000, 0xfffffffe][sd % 4]) + b'7 1 2 3 4 kwbc_x /s/zz\n'
        if kind == 'zero':
            return struct.pack('>I', 0) + b'\n'
        if kind == 'partial':
            return finfo(*good)[:1 + sd % 20]

    # ---- nbspinsert on its own
    def mkfifo(self, d):
        p = d + '/in.fifo'
        os.mkfifo(p)
        return p, os.open(p, os.O_RDWR | os.O_NONBLOCK)

    @staticmethod
    def readall(fd):
        b = b''
        while True:
            try:
                x = os.read(fd, 65536)
            except BlockingIOError:
                return b
            b += x

    def insert(self, ctx, d, m, path):
        """Runs nbspinsert -> (bytes it sent, complaint)"""
        fifo, fd = self.mkfifo(d)
        a = [str(m['seq'])] + [str(x) for x in m['a']]
        if 'badarg' in m:
            a[m['badarg'][0]] = m['badarg'][1]
            bad = not (m['badarg'][0] == 0 and m['badarg'][1] == '256')
        else:
            bad = False
        opt = ['-f', fifo]
        f = None
        if 'data' in m:
            f = d + '/file'
            opt.append('-i')
            path = f
            if m['old']:
                with open(f, 'wb') as h:
                    h.write(m['old'])
        r = ctx.exec([ctx.src['tools'] + '/tools/nbspinsert/nbspinsert'] + opt + ['--'] + a + [m['name'], path],
                     m.get('data', b''))
        b = self.readall(fd)
        os.close(fd)
        os.unlink(fifo)
        if r.crash:
            return b, r.crash
        if bad:
            if r.code == 0 or b:
                return b, 'nbspinsert accepts %r: exit %d, sent %r' % (a, r.code, b)
            return None, None
        want = finfo(a[0], a[1:], m['name'], path)
        if r.code != 0 or b != want:
            return b, 'nbspinsert %r: exit %d, sent %r (%s)' % (a, r.code, b, r.err[-200:])
        if f:
            got = open(f, 'rb').read()
            os.unlink(f)
            if got != m['data']:
                return b, 'nbspinsert -i stored %d bytes %r.. instead of %d bytes %r.. (over %d)' % (
                    len(got), got[:20], len(m['data']), m['data'][:20], len(m['old']))
        return b, None

    def many(self, case, ctx):
        d = ctx.dir()
        fifo, fd = self.mkfifo(d)
        exe = ctx.src['tools'] + '/tools/nbspinsert/nbspinsert'
        ps, want = [], []
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
        for i in range(case['n']):
            path = '/' + chr(97 + i) * case['size']
            want.append(finfo(str(i), [1, 2, 3, i], 'n%d' % i, path))
            ps.append(subprocess.Popen([exe, '-f', fifo, str(i), '1', '2', '3', str(i), 'n%d' % i, path], env=e,
                                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
        b, total, t0 = b'', sum(map(len, want)), time.time()
        while len(b) < total and time.time() - t0 < 60:
            if select.select([fd], [], [], 0.2)[0]:
                b += os.read(fd, 5000)
            elif all(p.poll() is not None for p in ps) and not select.select([fd], [], [], 0.05)[0]:
                break
        codes = []
        for p in ps:
            try:
                p.communicate(timeout=60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
            codes.append(p.returncode)
        b += self.readall(fd)
        os.close(fd)
        out = Outcome()
        out.nontrivial = True
        out.tags = ['concurrent nbspinsert']
        if any(codes):
            out.bad = 'nbspinsert failed: %r' % codes
        rest, left = b, list(want)
        while rest and not out.bad:
            for w in left:
                if rest.startswith(w):
                    rest = rest[len(w):]
                    left.remove(w)
                    break
            else:
                out.bad = 'messages of concurrent writers are mixed: %r...' % rest[:60]
        if left and not out.bad:
            out.bad = '%d messages are missing' % len(left)
        return out

    def listed(self, case, ctx):
        d = ctx.dir()
        fifo, fd = self.mkfifo(d)
        exe = ctx.src['tools'] + '/tools/nbspinsert/nbspinsert'
        want, text, L = b'', '', [list(l) for l in case['list']]
        k = n = None
        if case['bad']:
            k, n, x = case['bad']
            if n < 5 and x != x.strip():
                k = None
            elif n < 5:
                L[k][n] = x
                if n == 0 and x == '256':
                    k = None
            else:
                L[k] = L[k][:6]
        for i, l in enumerate(L):
            text += '\n' * (i in case['blank']) + ' '.join(l) + '\n'
            if k is None or i < k:
                want += finfo(l[0], l[1:5], l[5], l[6])
        if case['nonl'] and text:
            text = text[:-1]
        out = Outcome()
        out.tags = ['list of files']
        out.nontrivial = len(L) > 1
        p = subprocess.Popen([exe, '-f', fifo], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'), stdin=subprocess.PIPE,
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        b = b''
        p.stdin.write(text.encode())
        p.stdin.close()
        t0 = time.time()
        while p.poll() is None and time.time() - t0 < 60:
            if select.select([fd], [], [], 0.02)[0]:
                b += os.read(fd, 60000)
        p.kill()
        err = p.stderr.read()
        p.wait()
        p.stderr.close()
        b += self.readall(fd)
        os.close(fd)
        if b != want or (p.returncode != 0) != (k is not None):
            out.bad = 'nbspinsert with the list %r: exit %d, sent %r, expected %r (%s)' % (text, p.returncode, b, want, err[-300:])
        return out

    def run(self, case, ctx):
        if case['mode'] == 'list':
            return self.listed(case, ctx)
        if case['mode'] == 'many':
            return self.many(case, ctx)
        from pbt import Src
        import random
        fq, sq = case['fq'], case['sq']
        sent = lambda p: None if p is None else p + ',^zzzz$'
        r = net.Slave(ctx, [], dict(feedmode=4, filterq_patt_accept=sent(fq), serverq_patt_accept=sq, infifo_grp='root',
                                    infifo_mode=0o660, slave_read_timeout_secs=1 if case['trunc'] else 10))
        fifo = r.dir + '/in.fifo'
        r.prog.pop()
        r.op('set', 'infifo', hx(fifo.encode()))
        r.op('netstart')
        d = r.dir + '/ins'
        os.mkdir(d)
        room = len(r.spool) + 4 + 36 + 2
        fp, sp = sbn.Patt(fq), sbn.Patt(sq)
        want, swant, bad = [], [], None
        n = 0
        for ms, b, sd in case['batches']:
            st = b''
            for m in ms:
                k = {0: 5, -1: room - len(m['base']) - 1}[m['dirlen']]
                path = '/' + 'd' * (k - 1) + '/' + m['base']
                if m.get('ins'):
                    x, e = self.insert(ctx, d, m, path)
                    bad = bad or e
                    if x is None:
                        continue
                    if 'data' in m:
                        path = d + '/file'
                else:
                    x = finfo(m['seq'], m['a'], m['name'], path)
                st += x
                seq = m['seq'] if m.get('badarg', (1,))[0] != 0 else int(m['badarg'][1])
                ann = (seq, *m['a'], m['name'], path)
                n += 1
                if fp.accept(m['name']):
                    want.append(ann)
                if sp.accept(m['name']):
                    swant.append(ann)
            if b:
                st += self.bad(b[0], b[1], room)
            segs = net.segments(Src(random.Random(sd)), st)
            r.op('fifo', hx(fifo.encode()), 1 if b else 0, *net.script([segs])[1:])
        r.op('fifo', hx(fifo.encode()), 0, hx(finfo(4100000000, [0, 0, 0, 0], 'zzzz', '/x')))
        r.op('takeuntil', 4100000000)
        o = r.run()
        out = Outcome()
        mal = any(b for _, b, _ in case['batches'])
        out.nontrivial = n > 1 and (case['ins'] or mal or any(sd % 3 for _, _, sd in case['batches']))
        out.tags = ['malformed ' + b[0] for _, b, _ in case['batches'] if b] + ['nbspinsert'] * case['ins']
        if bad or o.bad:
            out.bad = bad or o.bad
            return out
        for v in o.res.get('fifo'):
            if not v[0].isdigit():
                out.bad = 'the input fifo: %s' % ' '.join(v)
            elif v[1] != '10660':
                out.bad = 'the mode of the input fifo is %s' % v[1]
        if not out.bad and o.ann != want:
            out.bad = 'announcements for the filters: expected %r, got %r' % (want, o.ann)
        if not out.bad:
            g = [a for a in o.sann if a[5] != 'zzzz']
            if g != swant:
                out.bad = 'announcements for the server: expected %r, got %r' % (swant, g)
        return out
