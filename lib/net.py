"""The streams between nbsp masters, slaves and clients: encoders and reference models."""
import os, re, struct
import pipe, sbn
from pbt import hx, HarnessError

ENV, HDR1, BLK = 12, 54, 65536
MAX1 = ENV + HDR1 + BLK
FNAME, FBASE = 18, 36
FDATA, FPATH = 1, 2


def envelope(ident, data, size=None, cksum=None):
    return struct.pack('>III', ident, len(data) if size is None else size,
                       (sum(data) if cksum is None else cksum) & 0xffffffff) + data


def nbs1(seq, base, block, nblocks, data, ptype=1, pcat=2, pcode=3, ch=0, z=0, bsize=None, ident=FDATA, size=None,
         cksum=None):
    b = base if isinstance(base, bytes) else base.encode('latin1')
    d = struct.pack('>IBBBB', seq & 0xffffffff, ptype, pcat, pcode, ch) + b[:37].ljust(37, b'\0')
    d += struct.pack('>BHHI', z, nblocks, block, len(data) if bsize is None else bsize) + data
    return envelope(ident, d, size, cksum)


def nbs2(seq, name, path, ptype=1, pcat=2, pcode=3, ch=0, pathsize=None, ident=FPATH, size=None, cksum=None, raw=None):
    d = struct.pack('>IBBBB', seq & 0xffffffff, ptype, pcat, pcode, ch) + name[:19].ljust(19, b'\0')
    d += path.ljust(len(path) + 1 if pathsize is None else pathsize, b'\0')
    return envelope(ident, d if raw is None else raw, size, cksum)


def segments(src, b, maxseg=6):
    """Splits a stream into the pieces in which it is written (some with a pause in between)."""
    n = src.wpick((3, 1), (2, 2), (2, src.int(2, maxseg)))
    cuts = sorted(src.draw(len(b) + 1) for _ in range(n - 1))
    r, p = [], 0
    for c in cuts + [len(b)]:
        if c > p:
            r.append(b[p:c])
            if src.bool(0.2):
                r.append(src.int(1, 4))
        p = c
    return r


def script(conns):
    """conns: lists of bytes and pauses -> arguments of `serve`."""
    a = []
    for c in conns:
        a.append('c')
        for s in c:
            a.append('d%d' % s if isinstance(s, int) else hx(s))
    return a


def joined(conn):
    return b''.join(s for s in conn if not isinstance(s, int))


class Nbs1Model:
    """One reader of whole files. feed(connection bytes) for each connection in turn."""

    def __init__(self, patt=None, savez=None, fq=None, sq=None, spool='/spool', files=None, rtxp=None):
        self.patt, self.savez, self.fq, self.sq = map(sbn.Patt, (patt, savez, fq, sq))
        self.spool = spool
        self.files = files if files is not None else {}
        self.act = None
        self.ann, self.sann, self.missing = [], [], []
        self.drops = self.dups = self.jumps = self.badname = self.rejected = self.undecodable = self.packets = 0
        self.completed = []
        self.fresh = set()      # stored since the processor was last known to be done
        self.racy = False

    def feed(self, b):
        p = 0
        while True:
            if len(b) - p < ENV:
                return
            ident, size = struct.unpack('>II', b[p:p + 8])
            if ident != FDATA or size + ENV > MAX1 or size < HDR1 or len(b) - p - ENV < size:
                self.drops += 1
                return
            d = b[p + ENV:p + ENV + size]
            p += ENV + size
            seq, t, c, k, ch = struct.unpack('>IBBBB', d[:8])
            z, nb, bl, bs = struct.unpack('>BHHI', d[45:54])
            if bs != size - HDR1:
                self.drops += 1
                return
            self.packets += 1
            self.packet(seq, t, c, k, ch, d[8:45].split(b'\0')[0][:36].decode('latin1'), z, nb, bl, d[54:])

    def packet(self, seq, t, c, k, ch, base, z, nb, bl, data):
        if bl == 1:
            if self.act:
                a = self.act
                self.missing.append((a['seq'], a['t'], a['c'], a['k'], a['ch'], a['base']))
            self.act = None
            a = dict(seq=seq, t=t, c=c, k=k, ch=ch, base=base, n=nb, recv=0, data=[])
            n = self.split(base)
            if n is None:
                self.badname += 1
                return
            a['name'], a['path'] = n
            if not self.patt.accept(a['name']):
                self.rejected += 1
                return
            if a['path'] in self.fresh:
                self.racy = True
            if a['path'] in self.files:
                self.dups += 1
                return
            a['unz'] = bool(z) and not self.savez.accept(a['name'])
            self.act = a
        a = self.act
        if not a or a['seq'] != seq:
            return
        if bl - 1 != a['recv']:
            self.jumps += 1
            self.act = None
            return
        a['recv'] += 1
        a['data'].append((z, data))
        if bl == nb:
            self.act = None
            if a['path'] in self.fresh:
                self.racy = True
            if a['n'] > a['recv'] or a['path'] in self.files:
                return
            self.complete(a)

    def complete(self, a):
        out = b''
        for z, d in a['data']:
            if a['unz'] and z:
                d = sbn.inflate(d)
                if d is None:
                    self.undecodable += 1
                    return
            out += d
        self.files[a['path']] = out
        self.completed.append(a)
        self.fresh.add(a['path'])
        n = (a['seq'], a['t'], a['c'], a['k'], a['ch'], a['name'], a['path'])
        if self.fq.accept(a['name']):
            self.ann.append(n)
        if self.sq.accept(a['name']):
            self.sann.append(n)

    def split(self, base):
        name, dot, _ = base.partition('.')
        if not dot or len(name) > FNAME:
            return None
        sta, us, rest = name.partition('_')
        if not us or len(sta) > 4:
            return None
        if '-' in rest:
            i, _, x = rest.partition('-')
        else:
            i, _, x = rest.partition('+')
        if len(i) > 6 or len(x) > 6:
            return None
        return name, '%s/%s/%s' % (self.spool, sta, base)


class Nbs2Model:
    """One reader of announcements."""

    def __init__(self, maxsize, fq=None, sq=None):
        self.fq, self.sq = sbn.Patt(fq), sbn.Patt(sq)
        self.maxsize = maxsize
        self.ann, self.sann = [], []
        self.drops = 0

    def feed(self, b):
        p = 0
        while True:
            if len(b) - p < ENV:
                return
            ident, size, ck = struct.unpack('>III', b[p:p + 12])
            d = b[p + ENV:p + ENV + size]
            bad = ident != FPATH or size + ENV > self.maxsize or len(d) < size or sum(d) & 0xffffffff != ck
            if not bad:
                bad = size < 8 + FNAME + 1 + 1 or b'\0' not in d[8:27] or b'\0' not in d[27:]
            if bad:
                self.drops += 1
                return
            p += ENV + size
            seq, t, c, k, ch = struct.unpack('>IBBBB', d[:8])
            n = (seq, t, c, k, ch, d[8:27].split(b'\0')[0].decode('latin1'), d[27:].split(b'\0')[0].decode('latin1'))
            if self.fq.accept(n[5]):
                self.ann.append(n)
            if self.sq.accept(n[5]):
                self.sann.append(n)


class Slave(pipe.Run):
    """A program for d_net."""

    def __init__(self, ctx, masters, settings=None, dir=None, feedmode=3):
        """masters: list of entry formats with %s for ip,port"""
        s = dict(feedmode=feedmode, slave_read_timeout_secs=10, slave_read_timeout_retry=0, slave_reopen_timeout_secs=0,
                 slave_so_rcvbuf=0, slave_stats_logperiod_secs=0, slave_reject_duplicates=1, slave_masterport='1')
        s.update(settings or {})
        super().__init__(ctx, s, dir)
        self.prog.pop()         # start
        self.op('set', 'slavestatsfile', hx((self.dir + '/log/slavestats').encode()))
        for i in range(len(masters)):
            self.op('listen', '127.%d.%d.%d' % (11 + i, 7, 1 + i))
        if masters:
            self.op('slaves', hx('|'.join(m.replace('%s', '@%d' % i) for i, m in enumerate(masters)).encode()))
        self.op('netstart')

    def serve(self, k, conns):
        self.op('serve', k, *script(conns))

    def served(self, k):
        self.op('served', k)

    def run(self, timeout=40):
        o = super().run('d_net', timeout)
        if not o.bad:
            for l in o.res.get('served'):
                if l[1] != '0':
                    o.bad = 'the slave did not read on or connect again to master %s' % l[0]
        return o
