"""Planted bugs, fifth set: python3 tools/plants5.py [ID...]"""
import sys
from seedtool import plant
import plants4
P = []


def bug(*a, **k):
    P.append((a, k))


CLI = plants4.CLI

GROUP = r'''
import os, socket, struct, subprocess, tempfile
d = tempfile.mkdtemp(dir=TMP)


def group(i):
    p = os.getpid() & 0x3fffff
    return '239.%d.%d.%d' % (p >> 14, p >> 6 & 255, (p & 63) << 2 | i)


'''

READ = GROUP + r'''
import pbt, pipe, sbn
port = 20000 + os.getpid() % 30000


def play(pairs, sent, extra=()):
    """sent [(pair, channel or None, frame)]; the frames that came out of each channel"""
    r = pipe.Run(pbt.Ctx('d_mcast'), dict(feedmode=1, ifip='127.0.0.1', broadcast_read_timeout_secs=4, udprcvsize=2000000,
                 multicastip=' '.join(a for a, b in pairs), multicastport=' '.join(str(b) for a, b in pairs)), d)
    r.prog[-1] = 'readers'
    for (a, b), c, f in sent:
        r.op('mcsend', a, b, 0 if c is None else 1, hx(f))
    r.op('mcwait', 5000)
    r.op('mclog')
    r.op('mcstop')
    r.op('stop')
    o = r.run('d_mcast')
    got = {}
    for c, h in o.res.get('mcf'):
        got.setdefault(int(c), []).append(unhx(h))
    return got, o
'''

bug('bind-any', 'C26', 'two channels with the same port and different groups',
    'each of them receives the frames of both',
    [('src/mcast.c', """  if(status == 0)
    status = bind(sfd, *sa_ptr, *sa_len);

  if(status == 0){
    memcpy(""", """  if(status == 0){
    struct sockaddr_in any = *(struct sockaddr_in*)*sa_ptr;

    any.sin_addr.s_addr = htonl(INADDR_ANY);
    status = bind(sfd, (struct sockaddr*)&any, sizeof(any));
  }

  if(status == 0){
    memcpy(""")], READ + r'''
a, b = (group(0), port), (group(1), port)
fa = frame(seq=5, data=b'SDUS53 KWBC 010203\r\r\nONE')
fb = frame(seq=6, data=b'SDUS53 KWBC 010203\r\r\nTWO')
got, o = play([a, b], [(a, 0, fa), (b, 1, fb), (a, 0, fa)])
check(got.get(0) == [fa, fa], 'channel 0 received %d frames, 2 were sent to its group' % len(got.get(0, [])))
check(got.get(1) == [fb], 'channel 1 received %d frames, 1 was sent to its group' % len(got.get(1, [])))
done()
''', drivers=['d_core', 'd_mcast'], libs=['pipe', 'sbn'])

bug('bad-frame-ends', 'C26', 'a frame that the pipeline refuses',
    'the reader of the channel ends and nothing else is received on it',
    [('src/reader.c', """      /*
       * If there was an error, this (main thread loop) continues
       */
      ;
""", """      log_errx("Reader %d: error processing a frame.", rinfo->channel_index);
      break;
""")], READ + r'''
a = (group(2), port)
f = [frame(seq=5 + k, data=b'SDUS53 KWBC 010203\r\r\nPRODUCT %d' % k) for k in range(3)]
got, o = play([a], [(a, 0, f[0]), (a, 0, f[1][:20]), (a, 0, b'@' * 50), (a, 0, f[2])])
check(f[2] in got.get(0, []), 'the frame after those that are not valid was not received')
done()
''', drivers=['d_core', 'd_mcast'], libs=['pipe', 'sbn'])

SEND = GROUP + r'''
port = 20000 + os.getpid() % 30000
s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
s.bind((group(3), port))
s.setsockopt(socket.IPPROTO_IP, socket.IP_ADD_MEMBERSHIP, socket.inet_aton(group(3)) + socket.inet_aton('127.0.0.1'))
s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4000000)
prog = os.getcwd() + '/_build/src/tools/nbspmcast/nbspmcast'


def send(*contents):
    """the contents of the products sent for files of these contents"""
    names = []
    for i, c in enumerate(contents):
        names.append(d + '/f%d' % i)
        open(names[-1], 'wb').write(c)
    p = subprocess.run([prog, '-I', '127.0.0.1', '-u', '200', '-s', '7', '-p', str(port), '-a', group(3)] + names, cwd=d)
    check(p.returncode == 0, 'exit status %d' % p.returncode)
    out = []
    s.setblocking(False)
    while True:
        try:
            f = s.recv(65536)
        except BlockingIOError:
            return out
        tt, hl, block, off, size = struct.unpack('>BHHHH', f[17:26])
        if block == 0:
            out.append(b'')
        out[-1] += f[len(f) - size:]
'''

bug('exact-block', 'C27', 'a file that fills its blocks exactly',
    'its last block is sent empty',
    [('tools/nbspmcast/sbnpack/file.c', """  ++nframes;

  *nframes_ptr""", """  if((nframes == 0) || (last_datablock_size > 0))
    ++nframes;

  *nframes_ptr""")], SEND + r'''
for n in (3975, 3976, 3977, 7976):
    c = bytes(i * 7 % 251 for i in range(n))
    got = send(c, b'second')
    check([g[24:] for g in got] == [c, b'second'], 'a file of %d bytes: %s bytes were received' % (n, [len(g) - 24 for g in got]))
done()
''')

bug('short-after-long', 'C27', 'a file followed by a smaller one in the same run',
    'the second one is sent with the end of the first',
    [('tools/nbspmcast/sbnpack/sbnpack.c', """      sbnpack_file->data_size = fsize;
      sbnpack_file->readp = sbnpack_file->data;
    }
""", """      sbnpack_file->data_size = sbnpack_file->allocated_size;
      sbnpack_file->readp = sbnpack_file->data;
    }
""")], SEND + r'''
c = [bytes((i * 7 + n) % 251 for i in range(n)) for n in (5000, 300, 4500, 9000, 10)]
got = send(*c)
check([g[24:] for g in got] == c, '%s bytes were received of files of %s' % ([len(g) - 24 for g in got], [len(x) for x in c]))
done()
''')

NC = CLI + r'''
import math


def nname(s):
    s = s.encode()
    return struct.pack('>I', len(s)) + s + b'\0' * (-len(s) % 4)


def val(t, v):
    b = v.encode() if t == 'c' else struct.pack('>%d%s' % (len(v), t), *v)
    return b + b'\0' * (-len(b) % 4)


TYPES = dict(c=2, h=3, i=4, f=5, d=6)


def atts(a):
    out = struct.pack('>II', 12 if a else 0, len(a))
    for k, (t, v) in a.items():
        out += nname(k) + struct.pack('>II', TYPES[t], len(v)) + val(t, v)
    return out


def netcdf(dims, ga, vs):
    def head(begin):
        out = b'CDF\1\0\0\0\0' + struct.pack('>II', 10, len(dims))
        for n, k in dims:
            out += nname(n) + struct.pack('>I', k)
        out += atts(ga) + struct.pack('>II', 11, len(vs))
        for (n, ds, a, t, v), b in zip(vs, begin):
            out += nname(n) + struct.pack('>I', len(ds)) + b''.join(struct.pack('>I', x) for x in ds)
            out += atts(a) + struct.pack('>III', TYPES[t], len(val(t, v)), b)
        return out
    o, begin = len(head([0] * len(vs))), []
    for v in vs:
        begin.append(o)
        o += len(val(v[3], v[4]))
    return head(begin) + b''.join(val(v[3], v[4]) for v in vs)


def image(x0, dx, nx, y0, dy, ny, data, start='2025045213617'):
    ga = dict(tile_center_longitude=('f', [-70.0]), tile_center_latitude=('f', [20.0]), product_name=('c', 'EMESO-020-B12-S1'),
              start_date_time=('c', start), source_scene=('c', 'Mesoscale'), satellite_id=('c', 'GOES-16'),
              abi_mode=('i', [6]), channel_id=('i', [9]))
    sc = lambda o, s: dict(add_offset=('d', [o]), scale_factor=('d', [s]))
    return netcdf([('x', nx), ('y', ny)], ga, [
        ('x', [0], sc(x0, dx), 'h', list(range(nx))), ('y', [1], sc(y0, -dy), 'h', list(range(ny))),
        ('Sectorized_CMI', [1, 0], sc(0.0, 1.0), 'h', data),
        ('fixedgrid_projection', [], dict(longitude_of_projection_origin=('d', [-75.0])), 'i', [0])])
'''

bug('local-time', 'C28', 'a local time zone other than UTC',
    'nbspgoesrinfo prints seconds that are off by the difference',
    [('filters/filterlib/c/dcgoesr/nbspgoesrinfo.c', """  tm.tm_isdst = 0;	/* do not apply any (summer) time effect */
""", """  tm.tm_isdst = -1;	/* let the library find out */
"""), ('filters/filterlib/c/dcgoesr/nbspgoesrinfo.c', """  *seconds = timegm(&tm);
""", """  *seconds = mktime(&tm);
""")], NC + r'''
put('f', image(0.0, 560.0, 4, 90000.0, 560.0, 3, list(range(12))))
for tz in ('UTC0', 'AST4', 'CET-1CEST'):
    os.environ['TZ'] = tz
    got = cli('nbspgoesrinfo', 'f')
    check(got == b'emeso-020-b12-s1 2025045213617 mesoscale goes-16 6 9 1739568977 20250214 2136\n', 'TZ=%s: %r' % (tz, got))
done()
''')

bug('box-else', 'C28', 'an image of which the northernmost point is the first one of a row that goes down to the south',
    'the bounding box in the info file does not contain that point',
    [('filters/filterlib/c/dcgoesr/dcgoesr_nc.c', """    if(pm->points[i].lat > pm->lat_max)
      pm->lat_max = pm->points[i].lat;""", """    else if(pm->points[i].lat > pm->lat_max)
      pm->lat_max = pm->points[i].lat;""")], NC + r'''
for x0 in (-90000.0, -60000.0, 1000.0, 60000.0):
    for y0 in (90000.0, -30000.0):
        put('f', image(x0, 2000.0, 8, y0, 2000.0, 6, list(range(48))))
        cli('nbspgoesrgis', '-O', '-V', '-n', 'b', 'f')
        lat = [float(l.split(',')[1]) for l in open(d + '/b.csv')]
        lon = [float(l.split(',')[0]) for l in open(d + '/b.csv')]
        v = dict(l.split(': ') for l in open(d + '/b.info').read().splitlines())
        bb = [float(x) for x in v['bb'].split()]
        want = [min(lon), min(lat), max(lon), max(lat)]
        check(all(abs(a - b) < 1e-4 for a, b in zip(bb, want)), 'bounding box %s of points in %s' % (bb, want))
done()
''')

bug('top-inset', 'C29', 'a rectangle given by -t whose amounts to the south and to the north are different',
    'the north is cut by the amount given for the south',
    [('filters/filterlib/c/dcgoesr/dcgoesr_regrid_asc.c', """      gmap->lat_max -= rlat_max;""", """      gmap->lat_max -= rlat_min;""")], NC + r'''
put('f', image(-3000.0, 560.0, 12, 60000.0, 560.0, 12, list(range(144))))


def grid(*a):
    cli('nbspgoesrgis', '-a', 'g.asc', *(list(a) + ['f']))
    v = dict(l.split(' ') for l in open(d + '/g.asc').read().split('\n')[:6])
    return int(v['nrows']), float(v['yllcorner']), float(v['cellsize'])


n, y, c = grid()
for a, b in ((0, 0), (2, 2), (1, 4), (5, 0), (0, 5)):
    m, y1, c1 = grid('-t', '-s', '0.0,%f,0.0,%f' % (a * c, b * c))
    check(abs(n - m - a - b) <= 1, 'insets of %d and %d cells: %d rows of %d' % (a, b, m, n))
done()
''')

bug('edge-refused', 'C29', 'a box that goes up to the right edge of the grid',
    'it is refused',
    [('filters/filterlib/c/dcgoesr/nbspgoesrasc.c', """     (g.ca->xmax > xur) ||""", """     (g.ca->xmax >= xur) ||""")], CLI + r'''
v = [[10 * j + i for i in range(8)] for j in range(6)]
put('g.asc', ('ncols 8\nnrows 6\nxllcorner -70.000000\nyllcorner 10.000000\ncellsize 0.500000\nnodata_value -1\n' +
              ''.join(' '.join(map(str, r)) + '\n' for r in v)).encode())
for x2 in (-67.25, -66.75, -66.25, -66.0):
    cli('nbspgoesrasc', '-e', '-69.75,10.25,%f,12.75,7' % x2, 'g.asc')
    rows = [[int(t) for t in l.split()] for l in open(d + '/z07.asc').read().split('\n')[6:-1]]
    k = min(int((x2 + 70) / 0.5), 7)
    check(rows == [r[:k + 1] for r in v], 'up to %s: %s' % (x2, rows[:2]))
done()
''')

if __name__ == '__main__':
    for a, k in P:
        if len(sys.argv) == 1 or a[0] in sys.argv[1:]:
            plant(*a, **k)
            print('planted', a[0])
