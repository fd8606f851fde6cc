"""Generators shared by the checks that feed frames."""
import random, zlib
import sbn

IDS = [b'SDUS53', b'FXUS61', b'SAUS70', b'TIGE01', b'WWUS82', b'NOUS42', b'YEQA91', b'HTMW30', b'sxus22']
STAS = [b'KWBC', b'KNES', b'TJSJ', b'KWAL', b'KDDC', b'PHFO', b'kbou', b'KWNO']
SECOND = [b'', b'N0RDDC\r\r\n', b'GRIB', b'METAR \r\r\n', b'AFDSJU\r\r\n', b'RR3   \r\r\n', b'BUFR', b'\r\r\nxx', b'7777',
          b'X\n', b'RVF  A\r\r\n', b'ABCDEFGH']


def ccb(src):
    return b'@' + b'\0' * 7 + b'CCBCCBCCB' + bytes([src.draw(32)]) + b'\0' * 6


def header(src, bbb=True):
    h = b'%s %s %06d' % (src.pick(IDS), src.pick(STAS), src.draw(320000))
    if bbb and src.bool(0.2):
        h += b' ' + src.pick([b'RRA', b'COR', b'PAD', b'P01', b'AAA12Z'])
    return h + b'\r\r\n'


def body(src, big=3900):
    return src.data(src.size(4, 60, 900, big))


def product(src, seq, ch=0, maxfrag=6, forms=None):
    """A well-formed product: dict(frames=[kwargs for sbn.frame...])."""
    form = src.wpick(*(forms or ((4, 'plain'), (3, 'ctrl'), (3, 'zctrl'), (1, 'zplain'), (2, 'ctrlccb'), (2, 'zctrlccb'),
                                 (2, 'ccb'))))
    n = src.wpick((3, 1), (2, 2), (2, 3), (1, src.int(4, maxfrag)))
    hdr = header(src)
    second = src.pick(SECOND)
    c = ccb(src)
    ptype, pcat, pcode = src.draw(256) if src.bool(0.3) else src.draw(16), src.draw(128), src.draw(65536)
    nf = n if n > 1 or src.bool(0.3) else 0
    full = (c if 'ccb' in form else b'') + hdr + second
    ctrl = b''
    if 'ctrl' in form:
        ctrl = (c if 'ccb' in form else b'') + hdr + second
        if len(ctrl) > 58:
            ctrl = ctrl[:58]
    fr = []
    for b in range(n):
        d = body(src) or b'\0'
        if b == 0 and (('ctrl' not in form) or form[0] == 'z'):
            d = full + d
        z = form[0] == 'z' and not src.bool(0.1)
        if b == 0 and form == 'zplain':
            z = True
        if z:
            d = zlib.compress(d[:4900], src.pick([1, 6, 9, 0]))
            d = d[:5050]
        tt = sbn.PROGRESS | (sbn.START if b == 0 else 0) | (sbn.END if b == n - 1 else 0) | (sbn.COMPRESSED if z else 0)
        fr.append(dict(seq=seq, block=b, tt=tt, ctrl=ctrl if b == 0 else b'', data=d, nfrag=nf, ptype=ptype, pcat=pcat,
                       pcode=pcode))
    return fr
