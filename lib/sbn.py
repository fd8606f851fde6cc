"""SBN frames: encoder, an independent reference parser, and a model of the receiver.

Written from the SBN layout (frame level header, product definition header,
product specific header) and the documented behaviour, not from the C code's
structure; the model is what the pipeline checks compare the real code with.
"""
import re, struct, zlib

START, PROGRESS, END, ERROR, COMPRESSED, ABORT = 1, 2, 4, 8, 16, 32
CCB = 24
RTX = 16
MAXFR = 5200


def frame(seq=1, block=0, tt=START | PROGRESS, ctrl=b'', data=b'', nfrag=1, sbnseq=0, cmd=3, stream=1,
          flags=0, ptype=1, pcat=1, pcode=0, orig=0, nonblk=b'', cksum=None, size=None, off=None, run=0,
          hdlc=0xff, psh=None):
    h = bytes([hdlc, 0, 0x14, 0, cmd, stream, 0, 0]) + struct.pack('>IH', sbnseq & 0xffffffff, run)
    h += struct.pack('>H', (sum(h) if cksum is None else cksum) & 0xffff)
    if cmd != 3:
        return h + nonblk
    n = len(ctrl) + len(data)
    h += struct.pack('>BBHHHHBBI', 0x14, tt, 16 + (36 if block == 0 else 0), block,
                     len(ctrl) if off is None else off, n if size is None else size, 0, 0, seq & 0xffffffff)
    if block == 0:
        h += struct.pack('>BBHBBHHBBHHHBBIIIHH', 3, 0, 36, 1, flags, 0, 0, ptype, pcat, pcode, nfrag, 0, 0, 0,
                         orig, 0, 0, 0, 0)
    return h + ctrl + data


class Bad(Exception):
    pass


def parse(raw):
    """The reference parser. Raises Bad; returns a dict."""
    f = {}
    if len(raw) < 16:
        raise Bad('short')
    if sum(raw[:14]) != struct.unpack('>H', raw[14:16])[0]:
        raise Bad('checksum')
    f['cmd'] = raw[4]
    f['stream'] = raw[5]
    f['sbnseq'] = struct.unpack('>I', raw[8:12])[0]
    if f['cmd'] != 3:
        return f
    if len(raw) < 32:
        raise Bad('short')
    _, tt, _, block, off, size, _, _, seq = struct.unpack('>BBHHHHBBI', raw[16:32])
    p = 32
    f.update(tt=tt, block=block, seq=seq)
    if block == 0:
        if len(raw) < 68:
            raise Bad('short')
        f['flags'] = raw[37]
        f['ptype'], f['pcat'] = raw[42], raw[43]
        f['pcode'], f['nfrag'] = struct.unpack('>HH', raw[44:48])
        f['orig'] = struct.unpack('>I', raw[52:56])[0]
        p = 68
    if len(raw) != p + size:
        raise Bad('size')
    if off > size:
        raise Bad('control header larger than the block')
    if 0 < off < 21:
        raise Bad('control header too small')
    f['ctrl'] = raw[p:p + off]
    f['data'] = raw[p + off:]
    f['z'] = bool(tt & COMPRESSED)
    f['ccb'] = False
    if block == 0:
        if off:
            d = f['ctrl']
        elif f['z']:
            d = inflate(f['data'])
            if d is None:
                raise Bad('cannot decompress')
        else:
            d = f['data']
        f['hdrfrom'] = d
        f['ccb'] = not d[:1].isalpha()
        if f['ccb'] and len(d) < CCB:
            raise Bad('too short for a communications block')
    return f


def inflate(b, lim=MAXFR):
    o = zlib.decompressobj()
    try:
        r = o.decompress(b, lim + 1)
    except zlib.error:
        return None
    if len(r) > lim or not o.eof:
        return None
    return r


def scan_words(b, widths):
    """Words of at most the given widths separated by optional white space, as many as there are."""
    b = b.split(b'\0')[0]
    p, r = 0, []
    for w in widths:
        while p < len(b) and b[p] in b' \t\n\v\f\r':
            p += 1
        q = p
        while q < len(b) and q - p < w and b[q] not in b' \t\n\v\f\r':
            q += 1
        if q == p:
            break
        r.append(b[p:q])
        p = q
    return r


def wmo_header(d, ccb, ctrl):
    """d: the bytes of the header block. Returns (id, station, time, awips, notawips) or None."""
    if ccb:
        d = d[CCB:]
    if ctrl and len(d) < 21:
        return None
    line, nl, rest = d.partition(b'\n')
    blanks = line.split(b'\0')[0].count(b' ')
    if blanks not in (2, 3):
        return None
    w = scan_words(d[:128], (6, 4, 6, 6)[:blanks + 1])
    if len(w) != blanks + 1 or len(w[0]) != 6 or len(w[1]) != 4 or len(w[2]) != 6:
        return None
    bbb = w[3] if blanks == 3 else b''
    if not w[0].isalnum() or not w[1].isalpha() or not w[2].isdigit() or (bbb and not bbb.isalnum()):
        return None
    awips = notawips = b''
    if nl and rest:
        if not rest[:1].isalpha():
            notawips = bbb
        else:
            if len(rest) >= 9 and rest[8:9] == b'\n':
                awips = re.match(rb'[^ \t\n\v\f\r\0]{0,6}', rest).group(0)
                if not awips.isalnum():
                    awips = b''
            if not awips:
                notawips = re.match(rb'[A-Za-z0-9]{0,6}', rest).group(0)
    return w[0], w[1], w[2], awips, notawips


def product_name(h):
    wid, sta, tm, aw, na = h
    n = sta + b'_' + wid
    if aw:
        n += b'-' + aw
    elif na:
        n += b'+' + na
    return n.lower().decode('latin1')


class Patt:
    """A reference for the accept patterns: comma separated, ! negates, the right-most match decides."""

    def __init__(self, s):
        self.s = s

    def accept(self, name):
        if self.s is None:
            return True
        r = False
        for p in self.s.split(','):
            if not p:
                continue
            neg = p[0] == '!'
            if re.search(p[1:] if neg else p, name):
                r = not neg
        return r


class Model:
    """What the receiver must do with a sequence of frames."""

    def __init__(self, patt=None, savez=None, fq=None, sq=None, rtxp=None, strip=False, spool='/spool',
                 rtxslots=True, rtxdefault=1):
        self.patt, self.savez, self.fq, self.sq, self.rtxp = map(Patt, (patt, savez, fq, sq, rtxp))
        self.strip, self.spool = strip, spool
        self.act = {}
        self.files = {}         # path -> content
        self.ann = []           # (channel, announcement) in order of completion
        self.sann = []
        self.missing = []
        self.rtxlog = []
        self.started = []
        self.rtx, self.rtx_old = {}, {}
        self.rtxslots, self.rtxdefault = rtxslots, rtxdefault
        self.st = dict(received=0, good=0, bad=0, size=0, jumps=0, transmitted=0, completed=0, missed=0, retrans=0,
                       retrans_c=0, retrans_p=0, retrans_i=0, retrans_r=0, rejected=0, aborted=0, badprod=0)
        self.last = {}
        self.rtx_ignored = []

    def rtx_truncate(self):
        self.rtx, self.rtx_old = {}, self.rtx

    def feed(self, ch, raw):
        """Returns True if the frame is well formed."""
        st = self.st
        st['received'] += 1
        st['size'] += len(raw)
        try:
            f = parse(raw)
        except Bad as e:
            if str(e) == 'cannot decompress':
                st['good'] += 1
                self.seqjump(ch, struct.unpack('>I', raw[8:12])[0])
            else:
                st['bad'] += 1
            return False
        st['good'] += 1
        self.seqjump(ch, f['sbnseq'])
        if f['cmd'] != 3:
            return True
        tt = f['tt']
        if tt & (ERROR | ABORT):
            st['aborted'] += 1
            self.act.pop(ch, None)
            return True
        if tt & START:
            if f['block'] == 0 and f['flags'] & RTX:
                st['retrans'] += 1
            if f['block'] != 0:
                return True
            st['transmitted'] += 1
            if ch in self.act:
                st['missed'] += 1
                self.incomplete(ch)
            if not self.start(ch, f):
                return True
        if tt & PROGRESS:
            a = self.act.get(ch)
            if a and a['seq'] == f['seq']:
                if f['block'] != a['recv']:
                    st['missed'] += 1
                    self.incomplete(ch)
                    return True
                a['recv'] += 1
                a['frames'].append(f)
        if tt & END:
            a = self.act.get(ch)
            if a:
                if a['seq'] == f['seq'] and a['nfrag'] <= a['recv']:
                    st['completed'] += 1
                    self.complete(self.act.pop(ch))
                else:
                    st['missed'] += 1
                    self.incomplete(ch)
        return True

    def seqjump(self, ch, s):
        l = self.last.get(ch, 0)
        if l > 0 and s > l + 1:
            self.st['jumps'] += 1
        self.last[ch] = s

    def start(self, ch, f):
        h = wmo_header(f['hdrfrom'], f['ccb'], bool(f['ctrl']))
        if h is None:
            self.st['missed'] += 1
            return False
        name = product_name(h)
        sta = h[1].lower().decode('latin1')
        base = '%s.%s_%d' % (name, h[2].decode('latin1'), f['seq'])
        a = dict(ch=ch, seq=f['seq'], nfrag=f['nfrag'] or 1, recv=0, frames=[], name=name, base=base,
                 path='%s/%s/%s' % (self.spool, sta, base), ptype=f['ptype'], pcat=f['pcat'], pcode=f['pcode'],
                 orig=f['orig'] if f['flags'] & RTX else 0, ccb=f['ccb'],
                 unz=f['z'] and bool(f['ctrl']) and not self.savez.accept(name))
        if not self.patt.accept(name):
            self.st['rejected'] += 1
            return False
        self.act[ch] = a
        self.started.append(a)
        return True

    def flagrtx(self, a):
        return self.rtxp.accept(a['name'])

    def incomplete(self, ch):
        a = self.act.pop(ch)
        self.missing.append((a['seq'], a['ptype'], a['pcat'], a['pcode'], a['ch'], a['base']))
        if self.flagrtx(a) and self.rtxslots:
            self.rtx[a['seq']] = 1

    def content(self, a):
        out = b''
        for i, f in enumerate(a['frames']):
            if a['unz']:
                d = f['data']
                if f['z']:
                    d = inflate(d)
                    if d is None:
                        return None
                out += d
            else:
                out += (f['ctrl'] if f['block'] == 0 else b'') + f['data']
        return out

    def complete(self, a):
        st = self.st
        if a['orig']:
            st['retrans_c'] += 1
            self.rtxlog.append((a['seq'], a['ptype'], a['pcat'], a['pcode'], a['ch'], a['base'], a['orig']))
            if not self.flagrtx(a):
                o = -1
            elif not self.rtxslots:
                o = -2
            else:
                o = self.rtx.get(a['orig'], self.rtx_old.get(a['orig'], -1))
            if o == 0:
                st['retrans_i'] += 1
                self.rtx[a['seq']] = 0
                self.rtx_ignored.append(a)
                return
            st['retrans_p'] += 1
            if o == 1:
                st['retrans_r'] += 1
            if o == -2 and not self.rtxdefault:
                self.rtx_ignored.append(a)
                return
        c = self.content(a)
        if c is None or (self.strip and a['ccb'] and len(c) <= CCB):
            st['badprod'] += 1
            return
        if self.strip and a['ccb']:
            c = c[CCB:]
        self.files[a['path']] = c
        if self.flagrtx(a) and self.rtxslots:
            self.rtx[a['seq']] = 0
        n = (a['seq'], a['ptype'], a['pcat'], a['pcode'] & 0xff, a['ch'], a['name'], a['path'])
        if self.fq.accept(a['name']):
            self.ann.append(n)
        if self.sq.accept(a['name']):
            self.sann.append(n)


def parse_announce(b):
    """An announcement packet -> (seq, type, cat, code, channel, name, path), checking its envelope."""
    ident, size, ck = struct.unpack('>III', b[:12])
    if ident != 2:
        raise ValueError('packet id %d' % ident)
    d = b[12:]
    if size != len(d):
        raise ValueError('packet data size %d of %d' % (size, len(d)))
    d = d[:size]
    if sum(d) & 0xffffffff != ck:
        raise ValueError('packet checksum')
    seq, t, c, k, ch = struct.unpack('>IBBBB', d[:8])
    name = d[8:27].split(b'\0')[0].decode('latin1')
    path = d[27:].split(b'\0')[0].decode('latin1')
    return seq, t, c, k, ch, name, path
