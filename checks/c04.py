"""The stored bytes: compression policy, communications block policy, and every kind of spool."""
import zlib
import gens, pipe, sbn
from pbt import Outcome, hx, unhx


class Check:
    pid = 'C04'
    title = 'Stored products have exactly the transmitted bytes in the configured format'
    parts = ['core']
    drivers = ['d_core']
    quick, thorough = 3000, 60000
    rule = ('a case counts as non-trivial when at least two products were stored and at least one of them needed a '
            'transformation (decompression or removal of the communications block) or came from a memory spool')
    assumptions = ['product sequence numbers are not zero and not reused within one run',
                   'a memory spool is not filled beyond its configured size']

    def gen(self, src):
        st = src.wpick((3, 1), (1, 2), (1, 3))
        n = src.int(1, 6)
        seq = src.pick([5, 77000, 3000000000])
        fr, k = [], 0
        for _ in range(n):
            k += 1
            p = gens.product(src, seq + k, maxfrag=10,
                             forms=((1, 'plain'), (1, 'ctrl'), (4, 'zctrl'), (1, 'zplain'), (2, 'ctrlccb'), (4, 'zctrlccb'),
                                    (1, 'ccb')))
            if src.bool(0.06):
                # a damaged compressed frame inside a product
                i = src.draw(len(p))
                d = bytearray(p[i]['data'])
                if p[i]['tt'] & sbn.COMPRESSED and len(d) > 2:
                    d[src.draw(len(d))] ^= 1 << src.draw(8)
                    p[i]['data'] = bytes(d)
            if src.bool(0.05) and len(p) > 1:
                # an empty block, or a header that announces fewer blocks than are sent
                if src.bool(0.5):
                    i = src.draw(len(p))
                    p[i].update(data=b'', tt=p[i]['tt'] & ~sbn.COMPRESSED)
                elif p[0]['nfrag'] > 1:
                    p[0]['nfrag'] -= 1
            fr += [sbn.frame(**f) for f in p]
        savez = src.pick([None, None, '', '', '^kwbc', 'sdus', '^kwbc,!kwbc_s', '!x,tjsj'])
        return {'spooltype': st, 'fmt': src.pick([0, 1]), 'savez': savez, 'frames': fr,
                'mem': (src.pick([4000, 64, 1024, 65536]), src.pick([8192, 100, 65536])),
                'chunk': src.pick([100000, 1, 4096, 777]), 'mslots': src.pick([4, 1, 2])}

    def run(self, case, ctx):
        chunk = max(case['chunk'], 1)
        bs, mn = case['mem']
        r = pipe.Run(ctx, dict(spooltype=case['spooltype'], spoolsavefmt=case['fmt'], savez_patt_accept=case['savez'],
                               memfile_blocksize=bs, memfile_minsize=mn, mspoolbdb_nslots=case['mslots']))
        m = sbn.Model(savez=case['savez'], strip=case['fmt'] == 1, spool=r.spool)
        for f in case['frames']:
            r.frame(1, f)
            m.feed(1, f)
        r.drain()
        mem = case['spooltype'] != 1
        if mem:
            for p in m.files:
                c = chunk if len(m.files[p]) // chunk < 400 else 500
                r.op('mread', hx(p.encode('latin1')), c)
        r.op('stop')
        o = r.run()
        out = Outcome()
        z = any(a['unz'] and any(f['z'] for f in a['frames']) for a in m.started if a['path'] in m.files)
        c = any(a['ccb'] and case['fmt'] == 1 for a in m.started if a['path'] in m.files)
        out.nontrivial = len(m.files) >= 2 and (z or c or mem)
        out.tags = ['spooltype %d' % case['spooltype'], 'format %d' % case['fmt']] + ['decompressed'] * z + ['stripped'] * c \
            + ['undecodable product'] * bool(m.st['badprod'])
        out.bad = o.bad or self.judge(case, m, o, mem)
        return out

    def judge(self, case, m, o, mem):
        got = o.files()
        if mem:
            if got:
                return 'files on disk with a memory spool: %r' % sorted(got)[:3]
            got = {}
            for p, v in zip(m.files, o.res.get('mread')):
                if v[0] == '-':
                    return 'product %s is not in the memory spool' % p
                got[p] = unhx(v[0])
                if int(v[1]) != len(got[p]):
                    return 'memory spool reads %d bytes of %s, size %s' % (len(got[p]), p, v[1])
        d = pipe.diff_files(m.files, got)
        if d:
            return d
        if m.ann != o.ann:
            return 'announcements differ: expected %r, got %r' % (m.ann, o.ann)
        if [x[0] for x in m.missing] != [x[0] for x in o.missing()]:
            return 'missing log: expected %r, got %r' % (m.missing, o.missing())
        return None
