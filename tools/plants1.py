"""Planted bugs, first set (C01-C11): python3 tools/plants1.py [ID...]"""
import sys
from seedtool import plant
P = []


def bug(*a, **k):
    P.append((a, k))


bug('dup-block', 'C01', 'a frame of a product of several frames that is received twice in a row',
    'a repeated block is skipped silently, so a product with a repeated block is delivered',
    [('src/pctl.c', """      ++(pctl->activepce[i])->recv_fragments;
    }else{""", """      ++(pctl->activepce[i])->recv_fragments;
    }else if(block_number < (pctl->activepce[i])->recv_fragments){
      /*
       * A frame that was already received.
       */
      status = 1;
    }else{""")],
    r'''
e = build('d_core')
p = Pipe()
a = product(11, b'one', b'two', b'three')
p.feed(a[0], a[1], a[1], a[2])
p.feed(*product(12, b'uno', b'dos'))
r = p.run(e)
check(r.announced == [12], 'announced %r' % r.announced)
check(len(r.files) == 1, 'files %r' % r.files)
check(len(r.missing) == 1, 'missing log %r' % r.missing)
done()
''', drivers=['d_core'])

bug('hdr-boundary', 'C02', 'a frame whose control header has exactly the smallest size allowed',
    'a valid frame with the smallest control header is rejected',
    [('src/sbn.c', 'if(sbnf->ctrlhdr_size < CTRLHDR_WMO_SIZE){', 'if(sbnf->ctrlhdr_size <= CTRLHDR_WMO_SIZE){')],
    r'''
e = build('d_core')
for n in (21, 22, 40):
    h = (b'SDUS53 KWBC 010203\r\r\n' + b'ABCDEF\r\r\n' + b'x' * 40)[:n]
    r = run(e, ['unpack ' + hx(frame(5, ctrl=h, data=b'hello'))])
    check(r.ended and get(r, 'u')[0][0] == '0', 'control header of %d bytes: %r' % (n, r.lines))
done()
''', drivers=['d_core'])

bug('seq-sign', 'C03', 'a product whose sequence number is 2^31 or more',
    'the name of the product has a negative number instead of its sequence number',
    [('src/framep.c', 'snprintf(pce->fbasename, fbasenamesize, "%s%c%s%c%u",', 'snprintf(pce->fbasename, fbasenamesize, "%s%c%s%c%d",')],
    r'''
e = build('d_core')
p = Pipe()
for s in (7, 2 ** 31 - 1, 2 ** 31, 3999999999):
    p.feed(*product(s, b'text'))
r = p.run(e)
want = {str(s) for s in (7, 2 ** 31 - 1, 2 ** 31, 3999999999)}
check({f.rsplit('_', 1)[1] for f in r.files} == want, 'names %r' % sorted(r.files))
done()
''', drivers=['d_core'])

bug('inflate-room', 'C04', 'a compressed product in which a later block decompresses to more bytes than an earlier one',
    'the product cannot be decompressed and is dropped',
    [('src/nbsp.c', """  numfragments = pce->num_fragments;

  for(i = 0;""", """  numfragments = pce->num_fragments;
  n = 0;

  for(i = 0;"""),
     ('src/nbsp.c', """      n = pdata_size;
      pdata_size = frdata_maxsize;
      unz_status = unz(frdata, &pdata_size, pdata, n);""", """      n = pdata_size;
      pdata_size = frdata_maxsize;
      unz_status = unz(frdata, &pdata_size, pdata, n);
      frdata_maxsize = pdata_size;""")],
    r'''
import zlib
e = build('d_core')
p = Pipe(savez_patt_accept='')
h = b'SDUS53 KWBC 010203\r\r\n'
for seq, parts in ((21, (b'a' * 100, b'b' * 50)), (22, (b'c' * 50, b'd' * 400, b'e'))):
    fr = []
    for i, x in enumerate(parts):
        n = len(parts)
        fr.append(frame(seq, i, PROGRESS | COMPRESSED | (START if i == 0 else 0) | (END if i == n - 1 else 0),
                        ctrl=h + b'GRIB' if i == 0 else b'', data=zlib.compress((h if i == 0 else b'') + x), nfrag=n))
    p.feed(*fr)
r = p.run(e)
check(r.announced == [21, 22], 'announced %r' % r.announced)
check(sorted(r.files.values()) == sorted([h + b'a' * 100 + b'b' * 50, h + b'c' * 50 + b'd' * 400 + b'e']),
      'files %r' % {k: len(v) for k, v in r.files.items()})
done()
''', drivers=['d_core'])

bug('rtx-chain', 'C05', 'a retransmission of a retransmission that was ignored because its original was received',
    'the second retransmission is processed although the product was received',
    [('src/nbsp.c', """      if(pce->rtxdb_flag == 1)
	e_nbsp_rtxdb_put_ok(pce->seq_number);

      return(0);""", """      if((pce->rtxdb_flag == 1) && (pce->orig_seq_number == seqnumber))
	e_nbsp_rtxdb_put_ok(pce->seq_number);

      return(0);""")],
    r'''
e = build('d_core')
p = Pipe(rtxdb_patt_accept=None)
p.feed(*product(31, b'text'))
p.feed(*product(32, b'text', flags=RTX, orig=31))
p.feed(*product(33, b'text', flags=RTX, orig=32))
r = p.run(e)
check(r.announced == [31], 'announced %r' % r.announced)
done()
''', drivers=['d_core'])

bug('jump-sync', 'C06', 'a frame that carries no data (timing) between data frames with consecutive numbers',
    'frames are counted as lost although none was lost',
    [('src/framep.c', """  memcpy(&gframep.fh[sbnf->np_channel_index], &sbnf->fh,
	 sizeof(struct frame_level_header));""", """  if(sbnf->fh.sbn_command == SBN_COMMAND_DATA_TRANSFER){
    memcpy(&gframep.fh[sbnf->np_channel_index], &sbnf->fh,
	   sizeof(struct frame_level_header));
  }""")],
    r'''
e = build('d_core')
def sync(n):
    h = bytes([0xff, 0, 0x14, 0, 5, 1, 0, 0]) + struct.pack('>IH', n, 0)
    return h + struct.pack('>H', sum(h) & 0xffff) + b'\0' * 32
p = Pipe()
p.feed(*product(41, b'a', sbnseq=100))
p.feed(sync(101))
p.feed(*product(42, b'b', sbnseq=102))
p.feed(*product(43, b'b', sbnseq=105))
p.drain()
p.op('stats')
r = p.run(e)
check(get(r, 'stats')[0][1] == '1', 'jumps: %r' % get(r, 'stats'))
done()
''', drivers=['d_core'])

bug('stale-tail', 'C07', 'a full spool in which a product with a shorter name replaces one with a longer name, which is replaced again',
    'the product of the shorter name is never removed, since its recorded name has the end of the longer one',
    [('src/spooldb.c', '  strncpy(oldkey, key, keysize);', '  memcpy(oldkey, key, keysize - 1);')],
    r'''
e = build('d_spool')
keys = ['/s/kwbc/kwbc_longername.1', '/s/b', '/s/kwbc/kwbc_other.2', '/s/c', '/s/kwbc/x', '/s/d', '/s/e', '/s/f', '/s/g']
r = run(e, ['sdinit 3 64', 'sdins ' + ' '.join(hx(k.encode()) for k in keys)])
dels = [unhx(l[0]).decode() for l in get(r, 'del')]
check(dels == keys[:6], 'removed %r' % dels)
done()
''', drivers=['d_spool'])

bug('no-wrap-read', 'C08', 'several stores, after the writing went around all of them, and a product in a store after the current one',
    'products that were not evicted are not found',
    [('src/libspoolbdb/spoolbdbv.c', """    if(*dbpv == NULL)
      dbpv = &spoolbdbv->dbv[spoolbdbv->Ndb];

    if(dbpv == spoolbdbv->wrdb)
      break;""", """    if((*dbpv == NULL) && (spoolbdbv->n <= 1))
      dbpv = &spoolbdbv->dbv[spoolbdbv->Ndb];

    if((*dbpv == NULL) || (dbpv == spoolbdbv->wrdb))
      break;""")],
    r'''
e = build('d_spool')
prog = ['mscreate - 2 64 3 4']
k = 0
for i in range(12):
    prog.append('msins %d %d 300000' % (100 + i, i))
    prog.append('msopen 0 %d' % max(100, 100 + i - 6))
    prog.append('msclose 0')
r = run(e, prog)
o = [l[0] for l in get(r, 'msopen')]
check(o == ['0'] * 12, 'opened %r' % o)
done()
''', drivers=['d_spool'])

bug('reopen-mem', 'C09', 'a file based queue that is closed and opened again with at least two products waiting and a limit on the memory',
    'the memory of the waiting products is counted wrong after the restart, so the limit is not kept',
    [('src/pctldb.c', """  pctldb->mf_total_size = 0;
  while(status == 0){
    status = cursor->c_get(cursor, &key, &data, DB_NEXT);
    if(status == 0){
      memfile_size = data.size;
      pctldb->mf_total_size += memfile_size;
    }""", """  pctldb->mf_total_size = 0;
  while(status == 0){
    status = cursor->c_get(cursor, &key, &data, DB_NEXT);
    if(status == 0){
      memfile_size = data.size;
      pctldb->mf_total_size = memfile_size;
    }""")],
    r'''
e = build('d_queue')
q = 'popen 1 0 0 0 1 4096 ' + hx(b'pq')      # at most 1 MB waiting
def prod(i, size):
    return ['pbegin 0 %d 1 %d' % (50 + i, i), 'pframe 0 %d 0 %d %d 0' % (50 + i, i, size), 'pend 0 %d' % (50 + i)]
prog = ['env x%s 4' % TMP.encode().hex(), q]
for i in range(5):
    prog += prod(i, 150000)
prog += ['pclose', q] + prod(5, 400000) + prod(6, 100000)
r = run(e, prog)
sent = [l[1] for l in get(r, 'pend')]
check(r.ended and sent == ['0'] * 5 + ['2', '0'], 'queueing status %r' % sent)
done()
''', drivers=['d_queue'])

bug('reopen-count', 'C10', 'a file based queue that is closed and opened again with records in it',
    'the records that were waiting are not delivered after the restart',
    [('src/libqdb/qdb.c', """    q->f_qdb_status = QDB_FSTATUS_OK;
    status = qdb_stat(q);""", """    q->f_qdb_status = QDB_FSTATUS_OK;
    if(f_memory_based)
      status = qdb_stat(q);""")],
    r'''
e = build('d_queue')
prog = ['env x%s 1' % TMP.encode().hex(), 'qopen 0 2 0 0 64 1 ' + hx(b'q')]
prog += ['qsnd 0 0 1 %d 40' % (70 + i) for i in range(5)]
prog += ['qclose 0', 'qopen 0 2 0 0 64 1 ' + hx(b'q')]
prog += ['qrcv 0 0 1 50 0' for i in range(6)]
r = run(e, prog)
got = [l[1] for l in get(r, 'qrcv') if l[0] == '0']
check(got == [str(70 + i) for i in range(5)], 'received %r' % get(r, 'qrcv'))
done()
''', drivers=['d_queue'])

if __name__ == '__main__':
    for a, k in P:
        if len(sys.argv) < 2 or a[0] in sys.argv[1:]:
            plant(*a, **k)
