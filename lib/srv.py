"""Scripted clients of the network server (driver d_srv): program builder and the reading of their streams."""
import struct
import net, pipe, sbn
from pbt import hx, unhx

NBS1, NBS2, EMWIN = 1, 2, 4
IDENT = {NBS1: b'NBS1', NBS2: b'NBS2', EMWIN: b'EMWIN'}
PROBE_CH, PROBE_SEQ = 7, 3900000000

DEFAULTS = dict(servertype=3, server_maxclients=-1, server_listen_backlog=16, server_so_sndbuf=-1,
                server_clientid_timeout_secs=100000, server_clientqlimit_logperiod_secs=60,
                client_write_timeout_ms=8000, client_write_timeout_retry=1, client_reconnect_wait_sleep_secs=2,
                client_reconnect_wait_sleep_retry=1000, client_queue_read_timeout_ms=50,
                client_queue_maxsize_soft=0, client_queue_maxsize_hard=0, client_queue_dbcache_mb=1,
                serverthreads_logperiod_packets=-1, serverthreads_logperiod_secs=1 << 30, emwinfilter_always=0,
                emwinfilter_read_timeout_secs=5, netfilter_enable=0, queue_read_timeout_ms=3)


def probe_frame(seq=PROBE_SEQ):
    return sbn.frame(seq=seq, tt=sbn.START | sbn.PROGRESS | sbn.END, nfrag=0,
                     data=b'ZZZZ98 KZZZ 010101\r\r\n--probe')


def simple(seq, hdr, data, ch=0, per=4900, ptype=1, pcat=2, pcode=3):
    """Frames of an uncompressed product with this text header and data."""
    d = hdr + data
    parts = [d[i:i + per] for i in range(0, len(d), per)]
    n = len(parts)
    return [sbn.frame(seq=seq, block=i, tt=sbn.PROGRESS | (sbn.START if i == 0 else 0) | (sbn.END if i == n - 1 else 0),
                      data=p, nfrag=n, ptype=ptype, pcat=pcat, pcode=pcode) for i, p in enumerate(parts)]


class Server(pipe.Run):
    """A program for d_srv. history: the products in the order in which they are completed."""

    def __init__(self, ctx, settings=None, dir=None, before=()):
        s = dict(DEFAULTS)
        s.update(settings or {})
        super().__init__(ctx, s, dir)
        self.prog.pop()         # start
        self.op('set', 'serverthreadsfile', hx((self.dir + '/log/threads').encode()))
        for b in before:
            self.op(*b)
        raw = probe_frame()
        self.op('probe', PROBE_CH, hx(raw), raw.index(struct.pack('>I', PROBE_SEQ)), PROBE_SEQ)
        self.op('fds')
        self.op('srvstart')
        self.steps = []         # what was announced: frames, or the probes of a `ready`
        self.marks = 0

    def product(self, frames, ch=0):
        for f in frames:
            self.frame(ch, f)
        self.steps.append((ch, frames))

    def client(self, k, ip, ident, auto=0, rcvbuf=0):
        self.op('client', k, ip, hx(ident), int(auto), rcvbuf)

    def ready(self, ks, ms=6000):
        self.op('ready', ms, *ks)
        self.steps.append('ready')

    def marker(self):
        """Feeds a product that ends the history; returns the name its announcement carries."""
        raw = pipe.sentinel(self.marks)
        self.product([raw], pipe.SENT_CH)
        self.marks += 1
        return b'kzzz_zzzz99.010101_%d' % (pipe.SENT_SEQ + self.marks - 1)

    def run(self, timeout=50):
        o = super().run('d_srv', timeout)
        if o.bad:
            return o
        # the history, with the probes that were really sent
        o.model = m = sbn.Model(spool=self.spool)
        o.hist = []             # (announcement, content)
        groups, cur = [], []
        for l in o.res.lines:
            if l[0] == 'probe':
                cur.append(int(l[1]))
            elif l[0] == 'ready':
                groups.append((cur, int(l[1])))
                cur = []
        o.unready = 0
        gi = 0
        for s in self.steps:
            fr = []
            if s == 'ready':
                seqs, left = groups[gi]
                gi += 1
                o.unready += left
                fr = [(PROBE_CH, probe_frame(q)) for q in seqs]
            else:
                fr = [(s[0], f) for f in s[1]]
            for ch, f in fr:
                n = len(m.sann)
                m.feed(ch, f)
                for a in m.sann[n:]:
                    o.hist.append((a, m.files[a[6]]))
        o.streams = {}          # client -> [(how it ended, bytes)]
        for k, j, e, h in o.res.get('cs'):
            o.streams.setdefault(int(k), []).append((int(e), unhx(h)))
        return o


def nbs1_units(o):
    """Per product: the list of packets that make it up."""
    r = []
    for a, c in o.hist:
        seq, t, k, code, ch, name, path = a
        n = (len(c) + net.BLK - 1) // net.BLK
        r.append([net.nbs1(seq, path.rsplit('/', 1)[1], b + 1, n, c[b * net.BLK:(b + 1) * net.BLK], t, k, code, ch)
                  for b in range(n)])
    return r


def nbs2_units(o, size):
    return [[net.nbs2(a[0], a[5].encode('latin1'), a[6].encode('latin1'), *a[1:5], pathsize=size)] for a, _ in o.hist]


def nbs2_pathsize(spool):
    return len(spool) + 4 + 36 + 2 + 1


def follow(units, streams, gaps):
    """Reads the streams of one client against the units (lists of packets) it should get.

    gaps: connections (indexes) before which products may be skipped: the client was away. Returns
    (problem or None, first unit, next unit, resent): the units received are first..next-1 without
    skips at other places.
    """
    first, pos, resent = None, None, 0
    for j, (end, b) in enumerate(streams):
        o = 0
        blk = 0
        fresh = j in gaps or pos is None
        while o < len(b):
            if fresh:
                lo = pos or 0
                i = next((i for i in range(lo, len(units)) if b[o:o + len(units[i][0])] == units[i][0]), None)
                if i is None:
                    if end and any(units[i][0].startswith(b[o:]) for i in range(lo, len(units))):
                        break
                    return ('connection %d does not start with a whole product it was not sent before: %s' %
                            (j, b[o:o + 100].hex()), first, pos, resent)
                if first is None:
                    first = i
                pos, blk, fresh = i, 0, False
            if pos >= len(units):
                return ('%d bytes after the last product in connection %d' % (len(b) - o, j), first, pos, resent)
            p = units[pos][blk]
            got = b[o:o + len(p)]
            if got != p:
                if len(got) < len(p) and p.startswith(got):
                    if not end:
                        return ('the stream of connection %d stops in the middle of a packet' % j, first, pos, resent)
                    o = len(b)
                    resent += 1
                    break
                x = next(i for i in range(min(len(got), len(p))) if got[i] != p[i]) if got[:len(p)] != p[:len(got)] else \
                    len(got)
                return ('connection %d, byte %d: expected packet %d of %d of product %d, which differs at its byte %d: '
                        'expected %s, found %s' % (j, o, blk + 1, len(units[pos]), pos, x, p[x:x + 16].hex(),
                                                   got[x:x + 16].hex()), first, pos, resent)
            o += len(p)
            blk += 1
            if blk == len(units[pos]):
                pos, blk = pos + 1, 0
        if blk and not end:
            return ('the stream of connection %d stops in the middle of a product' % j, first, pos, resent)
    return None, first, pos, resent
