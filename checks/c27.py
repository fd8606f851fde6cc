"""nbspmcast: the files it multicasts, frame by frame, and what the receive pipeline makes of them."""
import os, socket, struct
import pipe, sbn
from c26 import group
from pbt import Outcome

IDS = [b'SDUS53 KWBC', b'FXUS61 TJSJ', b'TIGE01 KNES', b'NOUS42 KWNO']
CCB = bytes([64, 12]) + b'\0' * 22


class Check:
    pid = 'C27'
    title = 'What nbspmcast transmits is received as exactly the files it was given'
    parts = ['core', 'tools']
    drivers = ['d_core']
    quick, thorough = 1500, 60000
    rule = ('a case counts as non-trivial when at least two files were transmitted, one of them in several frames, or one of the '
            'files could not be read')
    assumptions = ['the network loses no datagram', 'the files have less than 65536 times 4000 bytes', 'options are given as documented']

    def gen(self, src):
        files = []
        room = 40
        for _ in range(src.wpick((2, 1), (5, src.int(2, 5)), (1, src.int(6, 12)))):
            kind = src.wpick((12, 'file'), (1, 'missing'), (1, 'dir'), (1 if files else 0, 'again'))
            if kind == 'file':
                n = src.wpick((3, src.int(0, 400)), (3, src.pick([4000, 8000, 12000, 16000]) - 24 + src.int(-2, 2)), (3, src.int(0, 12000)),
                              (1, src.int(0, 90000)))
                n = min(n, max(room - 2, 0) * 4000)
                room -= n // 4000 + 1
                head = src.wpick((4, 'wmo'), (1, 'none'))
                h = b''
                if head == 'wmo':
                    h = src.pick(IDS) + b' %06d' % src.draw(320000) + src.pick([b'', b'', b' RRA']) + b'\r\r\n' + src.pick(
                        [b'', b'N0RJUA\r\r\n', b'AFDSJU\r\r\n'])
                body = src.data(min(n, 60)) if n else b''
                files.append(('file', n, h, body))
            elif kind == 'again':
                k = src.draw(len(files))
                files.append(('again', k) if files[k][0] == 'file' and files[k][1] < 20000 else ('missing',))
            else:
                files.append((kind,))
        return dict(files=files, s=src.wpick((2, None), (4, src.int(1, 100000)), (1, src.pick([2 ** 31 - 3, 3800000000]))),
                    f=src.wpick((2, None), (3, src.int(0, 100000)), (1, src.pick([2 ** 32 - 1, 2 ** 32 - 3, 2 ** 31 - 2]))),
                    r=src.bool(0.3), u=src.pick([None, None, '0', '1000', '-1', '200']), iface=src.pick(['I', 'i']), t=src.bool(0.2),
                    stdin=src.bool(0.4), blanks=[src.draw(3) for _ in files], nonl=src.bool(0.3), conf=src.bool(0.04),
                    port=src.int(20000, 60000), order=src.draw(1 << 30))

    def run(self, case, ctx):
        d = ctx.dir()
        out = Outcome()
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        try:
            g = group(1)
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind((g, case['port']))
            s.setsockopt(socket.IPPROTO_IP, socket.IP_ADD_MEMBERSHIP, socket.inet_aton(g) + socket.inet_aton('127.0.0.1'))
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4000000)
            cap = max(20, s.getsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF) // 9000)
            return self.run1(case, ctx, d, out, s, g, cap)
        finally:
            s.close()

    def run1(self, case, ctx, d, out, s, g, cap):
        os.makedirs(d + '/in/dir')
        names, content, room = [], [], cap
        for k, f in enumerate(case['files']):
            name, c = d + '/in/f%d' % k, None
            if f[0] == 'dir':
                name = d + '/in/dir'
            elif f[0] == 'again':
                name, c = names[f[1]], content[f[1]]
            elif f[0] == 'file':
                n = min(f[1], max(0, room - 2) * 4000)
                c = (f[2] + (f[3] * (n // max(1, len(f[3])) + 1) if f[3] else b''))[:n]
                with open(name, 'wb') as h:
                    h.write(c)
            if c is not None:
                room -= len(c) // 4000 + 1
                if room < 0:
                    break
            names.append(name)
            content.append(c)
        prog = ctx.src['tools'] + '/tools/nbspmcast/nbspmcast'
        opts = [['-I', '127.0.0.1'] if case['iface'] == 'I' else ['-i', 'lo'], ['-p', str(case['port'])], ['-a', g]]
        for o in 'sfu':
            if case[o] is not None:
                opts.append(['-' + o, str(case[o])])
        if case['t']:
            opts.append(['-t', '1'])
        x = case['order']
        opts = [o for _, o in sorted((((i + 1) * x * 7919 >> 3) % 1009, o) for i, o in enumerate(opts))]
        if case['r']:
            opts.insert(0, ['-r'])
        argv = [prog] + [a for o in opts for a in o]
        if case['conf']:
            e = ctx.exec([prog] + (['-r'] if case['r'] else []) + (['-s', str(case['s'])] if case['s'] else []) + ['-C'])
            out.tags = ['configuration']
            out.nontrivial = True
            w = ['opt_r: %d' % case['r'], 'opt_mcast_addr: 224.0.1.%d' % (3 if case['r'] else 1),
                 'opt_mcast_port: 120%d' % (3 if case['r'] else 1)] + (['opt_prod_seq_num: %d' % case['s']] if case['s'] else [])
            lost = [l for l in w if l not in e.out.decode('latin1').split('\n')]
            out.bad = e.crash or ('nbspmcast -C says %r, not %s' % (e.out, lost) if lost or e.code != 0 else None)
            return out
        inp = b''
        if case['stdin']:
            for n, k in zip(names, case['blanks']):
                inp += b'\n' * k * (k > 1) + n.encode() + b'\n'
            if case['nonl']:
                inp = inp.rstrip(b'\n')
        else:
            argv += names
        e = ctx.exec(argv, inp, d, 30)
        frames = []
        s.setblocking(False)
        while True:
            try:
                frames.append(s.recv(65536))
            except BlockingIOError:
                break
        good = [c for c in content if c is not None]
        many = [c for c in good if len(c) + 24 >= 4000]
        out.nontrivial = len(good) >= 2 and bool(many) or len(good) < len(content)
        out.tags = ['stdin' if case['stdin'] else 'arguments', 'radar' if case['r'] else 'text']
        if len(good) < len(content):
            out.tags.append('files that cannot be read')
        out.bad = e.crash or self.judge(case, content, frames, e) or self.receive(case, ctx, d, content, frames)
        return out

    def judge(self, case, content, frames, e):
        want = 1 if None in content else 0
        if e.code != want:
            return 'exit status %d, expected %d: %r' % (e.code, want, e.err[-200:])
        at, sbnseq, seq = 0, case['f'], case['s']
        for k, c in enumerate(content):
            if c is None:
                seq = None if seq is None else seq + 1
                continue
            got, n = b'', 0
            while True:
                if at >= len(frames):
                    return 'file %d (%d bytes): %d frames were sent, and the last is not there' % (k, len(c), n)
                raw = frames[at]
                try:
                    f = sbn.parse(raw)
                except sbn.Bad as x:
                    return 'file %d, frame %d cannot be parsed: %s' % (k, n, x)
                w = 'file %d (%d bytes), frame %d: ' % (k, len(c), n)
                if f['cmd'] != 3 or f['ctrl'] or f['z']:
                    return w + 'not a plain data frame'
                if f['block'] != n or bool(f['tt'] & sbn.START) != (n == 0) or not f['tt'] & sbn.PROGRESS or f['tt'] & (sbn.ERROR | sbn.ABORT):
                    return w + 'block number %d, transfer type %d' % (f['block'], f['tt'])
                if sbnseq is not None and f['sbnseq'] != sbnseq % 2 ** 32:
                    return w + 'the frame has the number %d, expected %d' % (f['sbnseq'], sbnseq % 2 ** 32)
                sbnseq = f['sbnseq'] + 1
                if seq is None:
                    seq = f['seq']
                if f['seq'] != seq:
                    return w + 'product number %d, expected %d' % (f['seq'], seq)
                if n == 0:
                    nfrag = f['nfrag']
                    if f['ptype'] != (5 if case['r'] else 4) or f['flags'] & sbn.RTX:
                        return w + 'product type %d, flags %d' % (f['ptype'], f['flags'])
                got += f['data']
                n += 1
                at += 1
                if f['tt'] & sbn.END:
                    break
            if got[:2] != CCB[:2] or got[24:] != c:
                return 'file %d has %d bytes, %d were sent after the control block, or they differ' % (k, len(c), len(got) - 24)
            if nfrag != n:
                return 'file %d was sent in %d frames, which say they are %d' % (k, n, nfrag)
            seq += 1
        if at != len(frames):
            return '%d frames were sent besides those of the files' % (len(frames) - at)
        return None

    def receive(self, case, ctx, d, content, frames):
        """What nbspd makes of them."""
        r = pipe.Run(ctx, None, d)
        m = sbn.Model(spool=r.spool)
        for f in frames:
            r.frame(2, f)
            m.feed(2, f)
        r.drain()
        r.op('stop')
        o = r.run()
        if o.bad:
            return o.bad
        bad = pipe.diff_files(m.files, o.files())
        if bad:
            return bad
        if m.ann != o.ann or m.sann != o.sann:
            return 'announcements differ: expected %r, got %r' % (m.ann, o.ann)
        got = sorted(o.files().values())
        want = sorted(CCB + c for c in content if c is not None and self.named(c))
        for w in want:
            if w not in got:
                return 'no product of nbsp has the %d bytes of a file' % (len(w) - 24)
        return None

    @staticmethod
    def named(c):
        return sbn.wmo_header((CCB + c)[:4000], True, b'') is not None
