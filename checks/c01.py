"""Product reassembly under any interleaving, loss, duplication, corruption and abort."""
import pipe, sbn, gens
from pbt import Outcome

FAULTS = ((6, None), (3, 'drop'), (2, 'dup'), (2, 'swap'), (2, 'corrupt'), (2, 'trunc'), (1, 'abort'), (1, 'error'),
          (1, 'nofinal'), (1, 'cmd'), (1, 'nfragup'), (1, 'nfragdown'), (1, 'tail'))


class Check:
    pid = 'C01'
    title = 'Products are reassembled exactly and incomplete ones are never delivered'
    parts = ['core']
    drivers = ['d_core']
    quick, thorough = 4000, 60000
    rule = ('a case counts as non-trivial when it has at least two products, at least one product of several frames, and '
            'either a fault (lost, duplicated, reordered, damaged, aborted frame) or frames of several channels')
    assumptions = ['product sequence numbers are not zero and not reused within one run',
                   'the frames of one channel arrive from one thread at a time']

    def gen(self, src):
        mode = src.wpick((2, 'seq'), (2, 'threads'))
        nch = src.wpick((2, 1), (2, 2), (1, src.int(3, 8)))
        seq0 = src.pick([1, 100, 4000000, 65530, 2 ** 31 - 4])
        chans, k = [], 0
        for c in range(nch):
            frames, np_ = [], src.int(1, 5)
            for _ in range(np_):
                k += 1
                fr = [sbn.frame(**f) for f in gens.product(src, seq0 + k)]
                meta = gens.product
                flt = src.wpick(*FAULTS)
                if flt:
                    i = src.draw(len(fr))
                    if flt == 'drop':
                        del fr[i]
                    elif flt == 'dup':
                        fr.insert(i, fr[i])
                    elif flt == 'swap' and len(fr) > 1:
                        i = src.draw(len(fr) - 1)
                        fr[i], fr[i + 1] = fr[i + 1], fr[i]
                    elif flt == 'corrupt':
                        b = bytearray(fr[i])
                        p = src.draw(16)
                        b[p] ^= 1 << src.draw(8)
                        fr[i] = bytes(b)
                    elif flt == 'trunc':
                        fr[i] = fr[i][:src.draw(len(fr[i]))] if src.bool(0.7) else fr[i] + b'xx'
                    elif flt in ('abort', 'error'):
                        fr.insert(i, sbn.frame(seq=seq0 + k, block=i + 1, tt=sbn.ABORT if flt == 'abort' else sbn.ERROR,
                                               data=b'zz'))
                    elif flt == 'nofinal':
                        fr[-1] = self.retag(fr[-1], sbn.END)
                    elif flt == 'cmd':
                        fr.insert(i, sbn.frame(cmd=src.pick([5, 10, 30, 0]), nonblk=b'\0' * 32))
                    elif flt == 'tail':
                        fr = fr[i:]
                    elif flt == 'nfragup' and fr[0][21] == 0:
                        fr[0] = self.setnf(fr[0], 1)
                    elif flt == 'nfragdown':
                        fr[0] = self.setnf(fr[0], -1)
                frames += fr
            chans.append(frames)
        order = []
        if mode == 'seq':
            for c in range(nch):
                order += [c] * len(chans[c])
            order = src.shuffle(order) if nch > 1 else order
        return {'mode': mode, 'chans': chans, 'order': order}

    @staticmethod
    def retag(raw, clear):
        b = bytearray(raw)
        b[17] &= ~clear & 0xff
        return bytes(b)

    @staticmethod
    def setnf(raw, d):
        b = bytearray(raw)
        if len(b) < 68:
            return raw
        n = max(0, (b[46] << 8 | b[47]) + d + (1 if d > 0 and not b[47] else 0))
        b[46], b[47] = n >> 8, n & 255
        return bytes(b)

    def run(self, case, ctx):
        r = pipe.Run(ctx)
        m = sbn.Model(spool=r.spool)
        chans = case['chans']
        if case['mode'] == 'seq':
            pos = [0] * len(chans)
            for c in case['order']:
                f = chans[c][pos[c]]
                pos[c] += 1
                r.frame(c, f)
                m.feed(c, f)
        else:
            r.threads(dict(enumerate(chans)))
            for c, fr in enumerate(chans):
                for f in fr:
                    m.feed(c, f)
        r.drain()
        r.op('stop')
        o = r.run()
        out = Outcome()
        nfrag = max((len(a['frames']) for a in m.started), default=0)
        out.nontrivial = len(m.started) >= 2 and nfrag > 1 and (m.missing or m.st['bad'] or m.st['aborted'] or
                                                               len(chans) > 1)
        out.tags = [case['mode'], 'channels %d' % len(chans), 'missing' if m.missing else 'no missing',
                    'aborted' if m.st['aborted'] else 'no abort', 'bad frames' if m.st['bad'] else 'no bad frames']
        out.bad = o.bad or self.judge(case, m, o)
        return out

    def judge(self, case, m, o):
        d = pipe.diff_files(m.files, o.files())
        if d:
            return d
        want, got = m.ann, o.ann
        if case['mode'] == 'threads':
            want, got = pipe.per_channel(want), pipe.per_channel(got)
        if want != got:
            return 'announcements for the filters differ: expected %r, got %r' % (want, got)
        want, got = m.sann, o.sann
        if case['mode'] == 'threads':
            want, got = pipe.per_channel(want), pipe.per_channel(got)
        if want != got:
            return 'announcements for the server differ: expected %r, got %r' % (want, got)
        if sorted(m.missing) != sorted(o.missing()):
            return 'the missing-products log differs: expected %r, got %r' % (sorted(m.missing), sorted(o.missing()))
        return None
