"""The programs that file products: nbspfile, nbsppipe, nbspcat, nbspz and nbspunz."""
import os, zlib
from pbt import Outcome

GPK_END = b'\r\r\n\003'
PAGE = 65536


def gpk(seq):
    return b'\001\r\r\n%03d \r\r\n' % (seq % 1000)


class Check:
    pid = 'C22'
    title = 'The filing tools write exactly the products they are given'
    parts = ['cli']
    drivers = []
    quick, thorough = 4000, 200000
    rule = ('a case counts as non-trivial when a program wrote a product of more than one page, transformed one (header, '
            'control block, compression) or refused a damaged one')
    assumptions = ['the first page of a file contains its header', 'compressed frames have the two first bytes of the '
                   'levels 7-9, as those in noaaport']

    # ---- generation

    def file(self, src):
        ccb = src.wpick((4, b'@' + b'\0' * 7 + b'CCBCCBCCB' + bytes([src.draw(256)]) + b'\0' * 6), (3, b''))
        awips = src.bool(0.6)
        hdr = src.pick([b'SDUS53 KWBC 010203', b'fxus61 TJSJ 312359 RRA', b'TIGE01 KNES 000000']) + b'\r\r\n'
        line2 = src.pick([b'N0RDDC\r\r\n', b'AFDSJU\n', b'\n', b'x' * 100 + b'\r\r\n'])
        n = src.wpick((1, 0), (4, src.int(1, 300)), (3, src.int(3900, 4100)), (3, src.int(7000, 13000)), (1, src.int(65400, 65600)),
                      (1, src.int(130000, 140000)))
        body = src.data(n) if src.bool(0.5) else bytes([65 + src.draw(20)]) * n
        if src.bool(0.3):
            # sizes at the pages
            t = len(ccb) + len(hdr) + len(line2)
            tot = src.pick([4000, 8000, 65536, 131072]) + src.int(-1, 1)
            body = (body * (tot // max(1, len(body)) + 1) if body else b'y' * tot)[:tot - t]
        data = ccb + hdr + (line2 if awips else b'') + body
        if src.bool(0.08):
            data = data[:src.int(0, 40)]
        name = src.pick(['dir-x', 'dirx', '.']) + '/' + ('kwbc_sdus53' + src.pick(['-n0rddc', '-x', '']) if src.bool(0.5) else
                                                          'tjsj_fxus61' + ('-afdsju' if awips else '+rra')) + '.010203_7'
        return name, data

    def seq(self, src):
        return src.pick([0, 7, 999, 1000, 90000, 123456, 4294967295])

    def pipeopts(self, src):
        o, ccb = [], 24
        if src.bool(0.3):
            ccb = src.pick([0, 1, 24, 30, 100, 65535])
            o += ['-c', str(ccb)]
        if src.bool(0.3):
            o.append('-n')
            ccb = 0
        g = src.bool(0.5)
        if g:
            o.append('-g')
        s = 90000
        if src.bool(0.5):
            s = self.seq(src)
            o += ['-s', str(s)]
        return src.shuffle_opts(o) if hasattr(src, 'shuffle_opts') else o, ccb, g, s

    def gen(self, src):
        kind = src.wpick((4, 'file'), (2, 'pipe'), (3, 'cat'), (1, 'z'), (4, 'unz'))
        c = dict(kind=kind)
        if kind == 'cat':
            c['files'] = [self.file(src) for _ in range(src.int(1, 3))]
            cmds = []
            for _ in range(src.wpick((3, src.int(1, 3)), (3, src.int(4, 9)))):
                w = src.draw(14)
                if w == 0:
                    cmds.append(('bad', src.pick(['', ' ', '-q %f', '-xgn %f', '-n nosuchfile', 'nosuchfile', '-s x %f', '-n %f %f', '-n',
                                                  '-sx -n %f', '-hgn %f', '-qo out9 %f'])))
                    continue
                o, ccb, g, s = self.pipeopts(src)
                out = src.wpick((3, None), (3, src.draw(3)))
                cmds.append(('cat', o, ccb, g, s, out, out is not None and src.bool(0.5), src.draw(len(c['files'])), src.int(1, 3)))
            c['cmds'] = cmds
            return c
        if kind == 'unz':
            pre = src.pick([b'', b'\1\r\r\n123 \r\r\nSDUS53 KWBC 010203\r\r\n', b'x' * 30, b'\x78', b'\xda\x78', b'\x78\x78'])
            fr = []
            for _ in range(src.wpick((1, 0), (3, 1), (5, src.int(2, 6)), (1, 20))):
                n = src.wpick((4, src.int(1, 400)), (5, 4000), (2, 5200), (1, src.int(5190, 5210)), (1, src.int(10000, 30000)))
                fr.append((n, src.draw(1 << 30), src.bool(0.4)))
            tail = src.pick([b'', b'', b'\r\r\n\3', b'\x78', b'x', b'plain frame' * 40])
            bad = None
            if fr and src.bool(0.2):
                bad = (src.draw(len(fr)), src.draw(1 << 16), src.int(1, 255))
            c.update(pre=pre, frames=fr, tail=tail, bad=bad, skip=src.wpick((3, None), (2, 'C'), (2, src.pick([0, 1, 24, 53, 399, 3999, 4000, 5200, 6000]))),
                     n=src.wpick((4, None), (3, src.int(1, 4)), (1, 0)), out=src.pick([None, 'o']), old=src.bool(0.5))
            return c
        name, data = self.file(src)
        c.update(name=name, data=data, out=src.wpick((1, None), (3, 'o')), old=src.bool(0.6), append=src.bool(0.4), dir=src.bool(0.25))
        if kind == 'pipe':
            c['opts'] = self.pipeopts(src)
            c['stdin'] = src.bool(0.3)
        elif kind == 'z':
            c['level'] = src.pick([None, None, 0, 1, 6, 9])
        else:
            o = []
            c['n'] = src.bool(0.2)
            c['c'] = src.wpick((5, None), (2, src.pick([1, 24, 30, 65535])))
            c['t'], c['w'] = src.bool(0.35), src.bool(0.25)
            c['z'] = src.wpick((5, None), (1, 0), (5, src.pick([9, 9, 1, 6])))
            c['p'] = src.wpick((3, None), (2, src.pick([4000, 4001, 8000, 5000000]))) if c['z'] is None else None
            c['s'] = src.wpick((2, None), (2, self.seq(src)))
            c['spos'] = src.bool()
            c['stdin'] = src.bool(0.25)
        return c

    # ---- a run

    def run(self, c, ctx):
        d = ctx.dir()
        os.makedirs(d + '/out')
        self.tags = {c['kind']}
        self.nt = False
        out = Outcome()
        out.bad = getattr(self, 'do_' + c['kind'])(c, ctx, d)
        out.nontrivial = self.nt
        out.tags = sorted(self.tags)
        return out

    def put(self, d, name, data):
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)

    def result(self, c, ctx, d, prog, args, want, stdin=b'', compare=None):
        """Runs a program that writes to c['out'] or the standard output; want None: it must fail."""
        old = b'old contents' * 700 if c.get('old') else None
        where = d + ('/out/' if c.get('dir') else '/')
        a = []
        if c['out'] is not None:
            a += ['-o', 'o']
            if old is not None:
                self.put(where, 'o', old)
            if c.get('append'):
                a.append('-a')
        if c.get('dir'):
            a += ['-d', 'out']
        r = ctx.exec([ctx.cli(prog)] + a + args, stdin=stdin, cwd=d)
        what = '%s %s' % (prog, ' '.join(a + args))
        if r.crash:
            return '%s: %s' % (what, r.crash)
        if want is None:
            self.nt = True
            self.tags.add('refused')
            return None if r.code == 1 else '%s: exit status %d for a product that must be refused' % (what, r.code)
        if r.code != 0:
            return '%s: exit status %d: %s' % (what, r.code, r.err[-200:])
        got = r.out
        if c['out'] is not None:
            if r.out:
                return '%s wrote %d bytes to the standard output' % (what, len(r.out))
            got = open(where + 'o', 'rb').read()
            if c.get('append') and old is not None:
                if not got.startswith(old):
                    return '%s did not keep what was in the file' % what
                got = got[len(old):]
        return self.same(what, got, want)

    def same(self, what, got, want):
        parts = want if isinstance(want, list) else [want]
        # bytes as such; ('z', page): a zlib stream of the page
        o = 0
        for p in parts:
            if isinstance(p, bytes):
                g = got[o:o + len(p)]
                if g != p:
                    i = next((i for i in range(min(len(g), len(p))) if g[i] != p[i]), min(len(g), len(p)))
                    return '%s: at byte %d expected %r, found %r (of %d bytes)' % (what, o + i, p[i:i + 20], g[i:i + 20], len(got))
                o += len(p)
            else:
                z = zlib.decompressobj()
                try:
                    u = z.decompress(got[o:])
                except zlib.error as e:
                    return '%s: no compressed page at byte %d: %s' % (what, o, e)
                if not z.eof or u != p[1]:
                    return '%s: the compressed page at byte %d has %d bytes, not the expected %d' % (what, o, len(u), len(p[1]))
                if p[2] and got[o + 1] >> 6 != {1: 0, 6: 2, 9: 3}[p[2]]:
                    return '%s: the page at byte %d is not compressed with level %d' % (what, o, p[2])
                o = len(got) - len(z.unused_data)
        if o != len(got):
            return '%s: %d bytes too many at the end: %r' % (what, len(got) - o, got[o:o + 20])
        return None

    def do_file(self, c, ctx, d):
        F = c['data']
        self.put(d, c['name'], F if not c['stdin'] else b'the wrong one')
        a = []
        ccb = c['c'] if c['c'] is not None else 0 if F[:1].isalpha() else 24
        if c['n']:
            a.append('-n')
            ccb = 0
        if c['c'] is not None:
            a += ['-c', str(c['c'])]
        for x in 'tw':
            if c[x]:
                a.append('-' + x)
        if c['z'] is not None:
            a += ['-z', str(c['z'])]
        if c['p'] is not None:
            a += ['-p', str(c['p'])]
        if c['stdin']:
            a.append('-i')
        seq = 90000
        post = []
        if c['s'] is not None:
            seq = c['s']
            if c['spos']:
                post = [str(seq)]
            else:
                a += ['-s', str(seq)]
        page = c['p'] or (4000 if c['z'] is not None else 4 << 20)
        head = F[:page][ccb:]
        o = 0
        for _ in range(2 if '-' in c['name'].rsplit('/', 1)[1] else 1):
            i = head.find(b'\n', o)
            o = i + 1
            if i < 0:
                break
        want = None
        if len(F[:page]) > ccb and i >= 0 and o < len(head):
            want = []
            if not c['t'] and not c['w']:
                want.append(gpk(seq))
            if not c['w']:
                want.append(head[:o])
            if c['z']:
                want += [('z', F[k:k + 4000], c['z']) for k in range(0, len(F), 4000)]
            else:
                want.append(F[ccb + o:])
            if not c['t'] and not c['w']:
                want.append(GPK_END)
            self.nt = self.nt or len(F) > page or c['z'] is not None or ccb != 0
        return self.result(c, ctx, d, 'nbspfile', a + [c['name']] + post, want, F if c['stdin'] else b'')

    def piped(self, F, opts):
        _, ccb, g, s = opts
        if len(F[:PAGE]) <= ccb:
            return None
        self.nt = self.nt or len(F) > PAGE or ccb != 0 or g
        return (gpk(s) if g else b'') + F[ccb:] + (GPK_END if g else b'')

    def do_pipe(self, c, ctx, d):
        self.put(d, c['name'], c['data'])
        return self.result(c, ctx, d, 'nbsppipe', c['opts'][0] + ([] if c['stdin'] else [c['name']]), self.piped(c['data'], c['opts']),
                           c['data'] if c['stdin'] else b'')

    def do_cat(self, c, ctx, d):
        names = []
        for i, (n, data) in enumerate(c['files']):
            names.append('f%d/%s' % (i, n))
            self.put(d, names[-1], data)
        outs, std, lines = {}, b'', []
        for e in c['cmds']:
            if e[0] == 'bad':
                lines.append(('cat ' if e[1].strip() else '') + e[1].replace('%f', names[0]))
                self.tags.add('bad command')
                continue
            _, o, ccb, g, s, out, app, fi, blanks = e
            F = c['files'][fi][1]
            want = self.piped(F, (o, ccb, g, s))
            if want is None:
                if g:
                    continue        # the header was written before; not judged
                want = b''
                self.tags.add('refused')
            l = o + (['-o', 'out%d' % out] + (['-a'] if app else []) if out is not None else []) + [names[fi]]
            lines.append((' ' * blanks).join(['cat'] + l))
            if out is None:
                std += want
            else:
                outs[out] = (outs.get(out, b'') if app else b'') + want
        r = ctx.exec([ctx.cli('nbspcat')], stdin=''.join(x + '\n' for x in lines).encode(), cwd=d)
        what = 'nbspcat with %r' % lines
        if r.crash:
            return '%s: %s' % (what, r.crash)
        if r.code != 0:
            return '%s: exit status %d: %s' % (what, r.code, r.err[-200:])
        bad = self.same(what + ', standard output', r.out, std)
        for i in range(10):
            p = d + '/out%d' % i
            if os.path.exists(p) != (i in outs):
                bad = bad or '%s: %s is %s' % (what, p, 'missing' if i in outs else 'written')
            elif i in outs:
                bad = bad or self.same('%s, out%d' % (what, i), open(p, 'rb').read(), outs[i])
        return bad

    def do_z(self, c, ctx, d):
        self.put(d, c['name'], c['data'])
        c = dict(c, append=False, dir=False)
        a = [] if c['level'] is None else ['-c', str(c['level'])]
        lv = 9 if c['level'] is None else c['level']
        self.nt = True
        return self.result(c, ctx, d, 'nbspz', a + [c['name']], [('z', c['data'], lv)] if lv else c['data'])

    def do_unz(self, c, ctx, d):
        import random
        raw, pages = [], []
        for n, sd, flat in c['frames']:
            p = b'abcdefgh'[sd % 8:sd % 8 + 1] * n if flat else random.Random(sd).randbytes(n)
            pages.append(p)
            raw.append(zlib.compress(p, 9))
        fail = not raw
        if c['bad']:
            k, pos, x = c['bad']
            b = bytearray(raw[k])
            b[2 + pos % (len(b) - 2)] ^= x
            try:
                z = zlib.decompressobj()
                u = z.decompress(bytes(b))
                ok = z.eof and u == pages[k] and not z.unused_data
            except zlib.error:
                ok = False
            if not ok:
                raw[k] = bytes(b)
                # a stream that now goes on into the following ones is none we can say much about
                z = zlib.decompressobj()
                try:
                    z.decompress(b''.join(raw[k:]) + c['tail'])
                    return None
                except zlib.error:
                    fail = True if c['n'] in (None, 0) or k < c['n'] else fail
        a = []
        skip = 0
        if c['skip'] == 'C':
            a.append('-C')
            skip = 24
        elif c['skip'] is not None:
            a += ['-c', str(c['skip'])]
            skip = c['skip']
        if c['n'] is not None:
            a += ['-n', str(c['n'])]
        units = pages + ([c['tail']] if c['tail'] else [])
        if c['n']:
            units = units[:c['n']]
        self.nt = self.nt or len(units) > 1
        if not fail and skip and skip >= min(len(pages[0]), 5200):
            if skip < len(pages[0]):
                return None     # more than the buffer: not judged
            fail = True
        data = c['pre'] + b''.join(raw) + c['tail']
        if not raw and b'\x78\xda' in data:
            return None
        self.put(d, 'in', data)
        cc = dict(c)
        bad = self.result(cc, ctx, d, 'nbspunz', a + ['in'], None if fail else b''.join(units)[skip:])
        return bad
