"""Planted bugs, fourth set: python3 tools/plants4.py [ID...]"""
import sys
from seedtool import plant
P = []


def bug(*a, **k):
    P.append((a, k))


CLI = r'''
import os, struct, subprocess, tempfile, zlib
C = os.path.join(os.getcwd(), '_build/src/filters/filterlib/c')
d = tempfile.mkdtemp(dir=TMP)


def cli(prog, *a, data=b'', exp=0):
    p = subprocess.run([C + '/' + prog] + list(a), input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d)
    check(p.returncode == exp, '%s: exit status %d %r' % (prog, p.returncode, p.stderr[-200:]))
    return p.stdout


def put(name, b):
    open(d + '/' + name, 'wb').write(b)
'''

bug('new-over-old', 'C21', 'a reload when a fifo that somebody reads is no longer in the directory of filters',
    'a program that is loaded takes the place of the fifo, which is told of nothing any more',
    [('src/filters.c', """    n = find_empty_entry();

  if""", """    n = gflist.n;	/* the next one */

  if""")],
    r'''
import os, struct, pbt, pipe, net, srv
ctx = pbt.Ctx('d_filt')
d = tempfile.mkdtemp(dir=TMP)
dev = d + '/dev'
os.makedirs(dev)
open(d + '/p', 'w').write('#!/bin/sh\nwhile IFS= read -r l\ndo\n  [ "$l" ] || exit\n  echo "L $l" >> %s\ndone\n' % (d + '/plog'))
os.chmod(d + '/p', 0o755)
os.mkfifo(dev + '/f')
r = pipe.Run(ctx, dict(sysfilterlist=d + '/p', filterdevdir=dev, fifo_write_timeout_ms=15, filterserver_statefile=d + '/fstate',
                       queue_read_timeout_ms=3, spooltype=1), d)
r.prog.pop()
r.op('rdopen', 0, hx((dev + '/f').encode()))
r.op('filtstart')
for k in range(3):
    for fr in srv.simple(100 + k, b'SDUS53 KWBC 010203\r\r\n', b'x' * 50, ptype=1, pcat=2, pcode=3):
        r.frame(0, fr)
    r.op('lines', hx((d + '/plog').encode()), hx(b'L %d ' % (100 + k)), 1, 9000)
    r.op('state', 9000)
    if k == 0:
        r.op('mv', hx((dev + '/f').encode()), hx((d + '/f').encode()))
    r.op('reload')
r.op('rd', 0)
r.op('filtstop')
o = r.run('d_filt')
got = unhx(o.res.get('rd')[0][1])
size = net.ENV + 27 + srv.nbs2_pathsize(r.spool)
check(open(d + '/plog').read().count('L ') == 3, 'the program was not told about 3 products')
check(len(got) == 3 * size, 'the reader of the fifo was told about %d products of 3' % (len(got) // size))
done()
''', drivers=['d_core', 'd_filt'], libs=['pipe', 'sbn', 'net', 'srv'])

bug('page-ccb', 'C22', 'a product of more than 64 kilobytes in an nbspcat session',
    'as many bytes as the control block has are lost at the start of each further page',
    [('filters/filterlib/c/nbspcat.c', """    data_start = 0;
  }	  
""", """    if(nread < ccb_size)
      data_start = 0;
  }	  
""")], CLI + r'''
b = bytes(i * 7 % 251 for i in range(150000))
put('f', b'@' * 24 + b)
put('g', b'@' * 24 + b[:1000])
got = cli('nbspcat', data=b'nbspcat -g -o o1 f\nnbspcat -o o2 g\nnbspcat -n -o o3 f\n')
o = [open(d + '/o%d' % i, 'rb').read() for i in (1, 2, 3)]
check(o[0][-len(b) - 4:] == b + b'\r\r\n\3', 'the first file has %d bytes' % len(o[0]))
check(o[1] == b[:1000], 'the second file has %d bytes' % len(o[1]))
check(o[2] == b'@' * 24 + b, 'the third file has %d bytes' % len(o[2]))
done()
''')

bug('short-skip', 'C23', 'more than 4096 bytes to be skipped before the product',
    'only the last part of the bytes is skipped, and the header is looked for among the others',
    [('filters/filterlib/c/misc.c', """    nleft -= nread;
  }
""", """    if((size_t)nread == buffer_size)
      nleft %= buffer_size;
    else
      nleft -= nread;
  }
""")], CLI + r'''
h = struct.pack('>HHIIHHHhiiHHH', 19, 15000, 3600, 1000, 1, 2, 3, -1, 18116, -66078, 2794, 19, 2).ljust(120, b'\0')
p = b'SDUS52 TJSJ 010203\r\r\nN0RJUA\r\r\n' + h
for n in (1, 24, 4096, 5000, 9000):
    put('f', b'S' * n + p)
    got = cli('nbspradinfo', '-c', str(n), 'f')
    check(got == b'18.116 -66.078 2794 %d 2 19' % (14999 * 86400 + 3600), 'skip %d: %r' % (n, got))
done()
''')

bug('bb-corner', 'C24', 'a radar product whose southernmost, northernmost, westernmost or easternmost point is the last corner of a cell',
    'the bounding box in the shp, shx and info files does not contain all cells',
    [('filters/filterlib/c/dcnids/dcnids_transform.c', """    for(i = 0; i < 4; ++i){
      if(pm->polygons[j].lon[i] < pm->lon_min)""", """    for(i = 0; i < 3; ++i){
      if(pm->polygons[j].lon[i] < pm->lon_min)""")], CLI + r'''
def nids(start, delta, runs):
    b = struct.pack('>HHH', len(runs) // 2, start, delta) + bytes(n << 4 | c for n, c in runs)
    body = struct.pack('>HHHHHHH', 0xaf1f, 0, 230, 0, 0, 1000, 1)
    layer = struct.pack('>hI', -1, len(body) + len(b)) + body + b
    data = struct.pack('>HHIH', 0xffff, 1, 10 + len(layer), 1) + layer
    h = struct.pack('>HHIIHHHhiiHHH', 19, 15000, 3600, 120 + len(data), 1, 2, 3, -1, 18116, -66078, 2794, 19, 2).ljust(120, b'\0')
    return b'SDUS52 TJSJ 010203\r\r\nN0RJUA\r\r\n' + h + data


for start in range(0, 3600, 300):
    put('f', nids(start, 10, [(5, 0), (3, 9)]))
    cli('nbspradgis', '-p', 'p', '-o', 'o', 'f')
    s = open(d + '/p', 'rb').read()
    xs, ys = [], []
    for o in range(100, len(s), 136):
        q = struct.unpack('<10d', s[o + 56:o + 136])
        xs += q[::2]
        ys += q[1::2]
    want = (min(xs), min(ys), max(xs), max(ys))
    bb = struct.unpack('<4d', s[36:68])
    check(all(abs(a - b) < 1e-9 for a, b in zip(bb, want)), 'azimuth %d: bounding box %s of %s' % (start // 10, bb, want))
done()
''')

GINI = CLI + r'''
def i24(v):
    return struct.pack('>I', abs(v) | (0x800000 if v < 0 else 0))[1:]


def gini(proj, nx, ny, lat1, lon1, lov, latin, dx, data, south=0):
    b = bytearray(512)
    b[0:4] = bytes([1, 2, 3, 4])
    b[4:8] = struct.pack('>HH', ny, nx)
    b[8:16] = bytes([110, 5, 6, 7, 8, 9, 0, proj])
    b[16:20] = struct.pack('>HH', nx, ny)
    b[20:26] = i24(lat1) + i24(lon1)
    b[27:36] = i24(lov) + i24(dx) + i24(dx)
    b[36] = 128 if south else 0
    b[38:41] = i24(latin)
    return b'TIGE02 KNES 181230\r\r\n' + bytes(b) + data


def points():
    s = open(d + '/p', 'rb').read()
    return [struct.unpack('<dd', s[o + 12:o + 28]) for o in range(100, len(s), 28)]
'''

bug('south-cone', 'C25', 'an image in a lambert projection tangent in the southern hemisphere',
    'the points lie elsewhere: the constant of the cone has the wrong sign',
    [('filters/filterlib/c/dcgini/dcgini_transform.c', """  psi = M_PI_2 - fabs(npdb->latin_rad);""",
      """  psi = M_PI_2 - npdb->latin_rad;""")], GINI + r'''
r = []
for sign in (1, -1):
    put('f', gini(3, 8, 6, sign * 200000, -700000, -650000, sign * 300000, 400000, bytes(range(1, 49)), sign < 0))
    cli('nbspsatgis', '-p', 'p', 'f')
    r.append(points())
# the image in the south is the mirror image of that in the north
for i, ((x, y), (u, v)) in enumerate(zip(*r)):
    check(abs(x - u) < 1e-6 and abs(y + v) < 1e-6, 'point %d: %.4f %.4f and %.4f %.4f' % (i, x, y, u, v))
done()
''')

bug('dark-edge', 'C25', 'an image with a margin of the lowest level',
    'the grid leaves the margin out',
    [('filters/filterlib/c/dcgini/dcgini_transform.c', """    if(pm->points[i].level == 0)
      continue;""", """    if(pm->points[i].level <= 1)
      continue;""")], GINI + r'''
w, h = 12, 10
pix = bytearray(w * h)
for j in range(1, h - 1):
    for i in range(1, w - 1):
        pix[j * w + i] = 1 if i in (1, w - 2) or j in (1, h - 2) else 100
put('f', gini(5, w, h, 200000, -700000, -650000, 0, 400000, bytes(pix)))
cli('nbspsatgis', '-p', 'p', '-o', 'o', 'f')
q = [p for p, v in zip(points(), pix) if v]
want = [min(x for x, y in q), min(y for x, y in q), max(x for x, y in q), max(y for x, y in q)]
v = dict(l.split(': ') for l in open(d + '/o').read().splitlines())
got = [float(x) for x in v['llur'].split()]
check(all(abs(a - b) < 1e-5 for a, b in zip(got, want)), 'llur %s of %s' % (got, want))
done()
''')

if __name__ == '__main__':
    for a, k in P:
        if len(sys.argv) == 1 or a[0] in sys.argv[1:]:
            plant(*a, **k)
            print('planted', a[0])
