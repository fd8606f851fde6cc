"""The slave side of the whole-file protocol (NBS1): real slave threads reading from scripted masters."""
import zlib
import net, pipe, sbn
from pbt import Outcome

FAULTS = ((10, None), (2, 'drop'), (2, 'dup'), (2, 'swap'), (2, 'cut'), (1, 'ident'), (2, 'bsize'), (2, 'size'), (1, 'cksum'),
          (1, 'nblocks'), (1, 'seq'), (2, 'nofinal'), (1, 'rest'), (1, 'block0'))
NAMES = ['kwbc_sdus53-n0rddc', 'tjsj_fxus61+rra', 'knes_tige01', 'kwbc_sdus53', 'x_y', 'phfo_saus70-metar', 'a_', 'abcd_',
         'kddc_wwus82-abcdef']
BADNAMES = ['nodot', 'kwbcx_sdus53.1', 'kwbc_sdus539.1', 'kwbc_sdus53-abcdefg.1', 'kwbc_sdus53+abcdefg.1', '.x', '',
            'kwbcsdus53.1_2', 'kwbc_sdus53-abcdefgh.01_2', 'k' * 36, 'k' * 37, None]


class Check:
    pid = 'C12'
    title = 'A whole-file slave stores every file its master sent, exactly once and exactly'
    parts = ['core']
    drivers = ['d_net']
    quick, thorough = 3000, 60000
    rule = ('a case counts as non-trivial when at least one file of several blocks was completed and there was a fault '
            '(lost, repeated, reordered or malformed block, connection cut), a duplicate file or a second master')
    assumptions = ['product sequence numbers are not zero', 'one file is sent by one master only in a phase',
                   'slave_reject_duplicates is on (the default)']

    def product(self, src, seq, earlier):
        if earlier and src.bool(0.2):
            seq, base = src.pick(earlier)
        elif src.bool(0.08):
            base = src.pick(BADNAMES)
            if base is None:
                base = (b'kwbc_sdus53.%d_' % seq).ljust(37, b'7')
        else:
            base = '%s.%06d_%d' % (src.pick(NAMES), src.draw(320000), seq)
            base = base[:36]
            earlier.append((seq, base))
        n = src.wpick((3, 1), (2, 2), (1, src.int(3, 8)), (0 if not src.bool(0.02) else 1, 300))
        z = src.bool(0.25)
        mixed = z and src.bool(0.2)
        pk = []
        a = dict(ptype=src.draw(256), pcat=src.draw(256), pcode=src.draw(256), ch=src.draw(256) if src.bool(0.2) else src.draw(9))
        for b in range(1, n + 1):
            if n == 300:
                d = b'x%d' % b
            else:
                k = src.wpick((4, 40), (4, 900), (2, 5000), (1, 65536))
                d = src.data(k if src.bool(0.1) else src.draw(k + 1))
            f = z and not (mixed and src.bool(0.5))
            if f:
                d = zlib.compress(d[:5200], src.pick([1, 9, 0]))
                if src.bool(0.03):
                    d = d[:-src.int(1, 5)]
            pk.append(dict(seq=seq, base=base, block=b, nblocks=n, data=d or b'\0', z=int(f), **a))
        return pk

    def fault(self, src, pk, flt):
        """-> list of encoded packets (None: the connection ends here), for the packets of a product"""
        i = src.draw(len(pk))
        kw = [dict(p) for p in pk]
        if flt == 'drop':
            del kw[i]
        elif flt == 'dup' and len(kw) > 1:
            kw.insert(i, dict(kw[i]))
        elif flt == 'swap' and len(kw) > 1:
            i = src.draw(len(kw) - 1)
            kw[i], kw[i + 1] = kw[i + 1], kw[i]
        elif flt == 'ident':
            kw[i]['ident'] = src.pick([2, 0, 0x01000000])
        elif flt == 'bsize':
            kw[i]['bsize'] = src.pick([len(kw[i]['data']) + 1, len(kw[i]['data']) - 1, 0, 0xffffffff, 0x80000000])
        elif flt == 'size':
            kw[i]['size'] = src.pick([net.MAX1 - 12 + 1, 0xfffffff4, 0xfffffff8, 0xffffffff, 0x80000000, 0, 53, 54, 8])
        elif flt == 'cksum':
            kw[i]['cksum'] = src.draw(1 << 32)
        elif flt == 'nblocks':
            kw[i]['nblocks'] = max(0, kw[i]['nblocks'] + src.pick([1, -1, 3]))
        elif flt == 'seq':
            kw[i]['seq'] += src.pick([1, 1000])
        elif flt == 'nofinal':
            kw.pop()
        elif flt == 'rest':
            kw = kw[i:]
        elif flt == 'block0':
            kw[i]['block'] = src.pick([0, 65535])
        r = [net.nbs1(**k) for k in kw]
        if flt == 'cut' and r:
            i = src.draw(len(r))
            r = r[:i] + [r[i][:src.draw(len(r[i]) + 1)], None] + (r[i + 1:] if src.bool(0.5) else [])
        return r

    def gen(self, src):
        nm = src.wpick((3, 1), (2, 2), (1, 3))
        phases, earlier = [], [[] for _ in range(nm)]
        seq = [src.pick([1, 500000, 2000000000]) + 100000 * i for i in range(nm)]
        for _ in range(src.wpick((2, 1), (1, 2))):
            ph = []
            for m in range(nm):
                used = set()
                conns, cur = [], []
                for _ in range(src.int(1, 4)):
                    seq[m] += 1
                    pk = self.product(src, seq[m], earlier[m])
                    if pk[0]['base'] in used:
                        continue
                    used.add(pk[0]['base'])
                    for p in self.fault(src, pk, src.wpick(*FAULTS)):
                        if p is None:
                            conns.append(cur)
                            cur = []
                        else:
                            cur.append(p)
                    if src.bool(0.1):
                        conns.append(cur)
                        cur = []
                conns.append(cur)
                ph.append([net.segments(src, b''.join(c)) for c in conns])
            phases.append(ph)
        return {'nm': nm, 'phases': phases, 'savez': src.pick([None, '', '', '^kwbc']),
                'patt': src.pick([None, None, None, '^k', '.,!tige01']), 'fq': src.pick([None, None, 'sdus']),
                'sq': src.pick([None, None, '!x,knes'])}

    def run(self, case, ctx):
        r = net.Slave(ctx, ['1,%s'] * case['nm'],
                      dict(savez_patt_accept=case['savez'], patt_accept=pipe.with_sentinel(case['patt']),
                           filterq_patt_accept=pipe.with_sentinel(case['fq']), serverq_patt_accept=case['sq']))
        files = {}
        ms = [net.Nbs1Model(case['patt'], case['savez'], case['fq'], case['sq'], r.spool, files) for _ in range(case['nm'])]
        for ph in case['phases']:
            for k, conns in enumerate(ph):
                r.serve(k, conns)
                for c in conns:
                    ms[k].feed(net.joined(c))
            for m in ms:
                m.fresh.clear()
            for k in range(len(ph)):
                r.served(k)
            r.drain()
        out = Outcome()
        if any(m.racy for m in ms):
            out.tags = ['a file sent again at once']
            return out
        o = r.run()
        done = [a for m in ms for a in m.completed]
        faults = [t for t in ('drops', 'dups', 'jumps', 'badname', 'rejected', 'undecodable', 'missing')
                  if any(getattr(m, t) for m in ms)]
        out.nontrivial = any(a['n'] > 1 for a in done) and (faults or case['nm'] > 1)
        out.tags = faults + ['masters %d' % case['nm']]
        out.bad = o.bad or self.judge(ms, files, o)
        return out

    def judge(self, ms, files, o):
        d = pipe.diff_files(files, o.files())
        if d:
            return d
        for what, want, got in (('filters', [m.ann for m in ms], o.ann), ('server', [m.sann for m in ms], o.sann)):
            for w in want:
                s = set(a[0] for a in w)
                g = [a for a in got if a[0] in s]
                if g != w:
                    return 'announcements for the %s differ: expected %r, got %r' % (what, w, g)
            if sum(map(len, want)) != len(got):
                return 'announcements for the %s differ: expected %r, got %r' % (what, want, got)
        want = sorted(x for m in ms for x in m.missing)
        if want != sorted(o.missing()):
            return 'the missing-products log differs: expected %r, got %r' % (want, sorted(o.missing()))
        return None
