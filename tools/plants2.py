"""Planted bugs, second set: python3 tools/plants2.py [ID...]"""
import sys
from seedtool import plant
P = []


def bug(*a, **k):
    P.append((a, k))


bug('inflate-room', 'C04', 'a compressed product in which a later block decompresses to more bytes than an earlier one',
    'the product cannot be decompressed and is dropped',
    [('src/nbsp.c', """      pdata_size = frdata_maxsize;
      unz_status = unz(frdata, &pdata_size, pdata, n);""", """      unz_status = unz(frdata, &frdata_maxsize, pdata, n);
      pdata_size = frdata_maxsize;""")],
    r'''
import zlib
e = build('d_core')
p = Pipe(savez_patt_accept='')
h = b'SDUS53 KWBC 010203\r\r\n'
for seq, parts in ((21, (b'a' * 100, b'b' * 50)), (22, (b'c' * 50, b'd' * 400, b'e'))):
    fr = []
    for i, x in enumerate(parts):
        n = len(parts)
        fr.append(frame(seq, i, PROGRESS | COMPRESSED | (START if i == 0 else 0) | (END if i == n - 1 else 0),
                        ctrl=h + b'GRIB' if i == 0 else b'', data=zlib.compress((h if i == 0 else b'') + x), nfrag=n))
    p.feed(*fr)
r = p.run(e)
check(sorted(len(x) for x in r.files.values()) and len(r.files) == 2, 'files %r' % {k: len(v) for k, v in r.files.items()})
check(r.announced == [21, 22], 'announced %r' % r.announced)
done()
''', drivers=['d_core'])

bug('cq-poll', 'C11', 'a client queue that is empty and a receiver that does not want to wait (time limit 0)',
    'the receiver waits until a record comes instead of returning at once',
    [('src/libconnth/cq.c', """  status = nbspqt_rcv(cq->qt,
		    0, &cq->data, &cq->data_size, timeout_ms, dberror);""",
      """  status = nbspqt_rcv(cq->qt, 0, &cq->data, &cq->data_size,
		      timeout_ms > 0 ? timeout_ms : -1, dberror);""")],
    r'''
e = build('d_queue')
r = run(e, ['cqopen 0 0 0 64 1', 'qrcv 1 0 0 30 64', 'qrcv 1 0 0 0 64'], timeout=10)
check(r.ended, 'no end: %r' % r.lines)
check([l[0] for l in get(r, 'qrcv')] == ['1', '1'], 'results %r' % r.lines)
done()
''', drivers=['d_queue'])

bug('cut-unrecorded', 'C12', 'a file from a master that is interrupted by the start of another one',
    'the interrupted file is not recorded as missing',
    [('src/slavenbs/framep.c', """    update_stats_products_missed();
    if(esend_pctl_activepce(g.pctl, nbs->slavenbs_reader_index) != 0){
      log_errx("Could not add %u to processor queue.", nbs->seq_number);
    }
    close_pctl_activepce(g.pctl, nbs->slavenbs_reader_index);
    pce =""", """    update_stats_products_missed();
    close_pctl_activepce(g.pctl, nbs->slavenbs_reader_index);
    pce =""")],
    r'''
import net, pbt
r = net.Slave(pbt.Ctx('d_net'), ['1,%s'])
a = net.nbs1(5, 'kaaa_sdus53.010203_5', 1, 2, b'half')
b = net.nbs1(6, 'kbbb_sdus53.010203_6', 1, 1, b'whole')
r.serve(0, [[a + b]])
r.served(0)
r.drain()
o = r.run()
check(not o.bad, o.bad)
check([x[0] for x in o.ann] == [6], 'announced %r' % o.ann)
check([m[0] for m in o.missing()] == [5], 'missing log %r' % o.missing())
done()
''', drivers=['d_core', 'd_net'], libs=['net', 'pipe', 'sbn'])

bug('match-path', 'C13', 'a server queue pattern that matches part of the path of a file but not its name',
    'announcements that the pattern of the server queue rejects are given to the clients',
    [('src/slavefp/framep.c', 'if(serverq_regex_match(packetinfo->fname) == 0)', 'if(serverq_regex_match(packetinfo->fpath) == 0)')],
    r'''
import net, pbt
r = net.Slave(pbt.Ctx('d_net'), ['2,%s'], dict(serverq_patt_accept='_sdus53$,_sdus54'))
room = len(r.spool) + 4 + 36 + 2 + 1
b = b''
for n, i in ((5, 'sdus53'), (6, 'sdus54'), (7, 'sdus5')):
    b += net.nbs2(n, b'kaaa_' + i.encode(), b'/x/kaaa/kaaa_%s.010203_%d' % (i.encode(), n), pathsize=room)
r.serve(0, [[b]])
r.served(0)
r.drain()
o = r.run()
check(not o.bad, o.bad)
check([x[0] for x in o.ann] == [5, 6, 7], 'filter queue %r' % o.ann)
check([x[0] for x in o.sann] == [5, 6], 'server queue %r' % o.sann)
done()
''', drivers=['d_core', 'd_net'], libs=['net', 'pipe', 'sbn'])

bug('fifo-name-full', 'C14', 'a message whose file name has exactly the longest length allowed',
    'the file is not announced and the fifo is reopened',
    [('src/slavein/reader.c', """  if(fname_len > FNAME_SIZE)
    return(9);""", """  if(fname_len >= FNAME_SIZE)
    return(9);""")],
    r'''
import struct
import net, pbt
r = net.Slave(pbt.Ctx('d_net'), [], dict(feedmode=4, infifo_grp='root', infifo_mode=0o660))
fifo = r.dir + '/in.fifo'
r.prog.pop()
r.op('set', 'infifo', hx(fifo.encode()))
r.op('netstart')


def msg(seq, name):
    s = b'%d 1 2 3 4 %s /x/%s.010203_%d' % (seq, name, name, seq)
    return struct.pack('>I', len(s)) + s + b'\n'


for q, n in ((5, b'kaaa_sdus53'), (6, b'kaaa_sdus53-abcde'), (7, b'kaaa_sdus53-abcdef'), (8, b'kaaa_sdus53')):
    r.op('fifo', hx(fifo.encode()), 0, hx(msg(q, n)))
r.op('fifo', hx(fifo.encode()), 0, hx(msg(4100000000, b'zzzz')))
r.op('takeuntil', 4100000000)
o = r.run()
check(not o.bad, o.bad)
check([x[0] for x in o.ann] == [5, 6, 7, 8], 'announced %r' % o.ann)
done()
''', drivers=['d_core', 'd_net'], libs=['net', 'pipe', 'sbn'])

bug('block-64k', 'C15', 'a file whose size is exactly 65536 bytes',
    'an NBS1 client receives the file empty',
    [('src/nbs1s.c', """  size = fsize % NBS1_BLOCK_SIZE;
  if(size == 0)
    size = NBS1_BLOCK_SIZE;""", """  size = fsize % NBS1_BLOCK_SIZE;
  if((size == 0) && (fsize > NBS1_BLOCK_SIZE))
    size = NBS1_BLOCK_SIZE;""")],
    r'''
import srv, net, pbt
r = srv.Server(pbt.Ctx('d_srv'), dict(spoolsavefmt=1))
r.client(0, '127.1.1.1', b'NBS1')
r.ready([0])
h = b'SDUS53 KWBC 010203\r\r\n'
for q, n in ((5, 300), (6, 65536), (7, 131072), (8, 70000)):
    r.product(srv.simple(q, h, b'x' * (n - len(h))))
m = r.marker()
r.op('until', 0, hx(m), 20000)
r.op('dump')
r.op('bye', 0, 0)
r.op('srvstop', 15000)
o = r.run()
check(not o.bad, o.bad)
bad, first, nxt, _ = srv.follow(srv.nbs1_units(o), o.streams.get(0, []), [0])
check(not bad, bad)
check(nxt is not None and nxt >= len(o.hist) - 1, 'received up to %r of %d' % (nxt, len(o.hist)))
done()
''', drivers=['d_core', 'd_srv'], libs=['srv', 'net', 'pipe', 'sbn'])

if __name__ == '__main__':
    for a, k in P:
        if len(sys.argv) == 1 or a[0] in sys.argv[1:]:
            plant(*a, **k)
            print('planted', a[0])
