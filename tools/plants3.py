"""Planted bugs, third set: python3 tools/plants3.py [ID...]"""
import sys
from seedtool import plant
P = []


def bug(*a, **k):
    P.append((a, k))


NETD = dict(drivers=['d_core', 'd_srv'], libs=['srv', 'net', 'pipe', 'sbn'])

bug('name-desync', 'C16', 'a filter that answers with a name that is too long for an EMWIN packet, and then with another product',
    'the rest of the answer is taken as the answer about the next product',
    [('src/serverm.c', """    if(output_emwinfname_size > emwinfname_size - 1){
      close_emwin_filter();
      log_errx(""", """    if(output_emwinfname_size > emwinfname_size - 1){
      log_errx(""")],
    r'''
import os, srv, pipe, pbt
ctx = pbt.Ctx('d_srv')
d = ctx.dir()
open(d + '/rules', 'w').write('5 0 0 0 0 0 @ a\n6 0 0 0 0 0 @ averylongname\n7 0 0 0 0 0 @ b\n8 0 0 0 0 0 @ c\n0 0 0 0 0 0 @ p\n')
r = srv.Server(ctx, dict(servertype=4, emwinfilter='%s --emwin %s' % (ctx.drv['d_srv'].exe, d + '/rules'),
                         emwinfilter_fifo=d + '/fifo', emwinfilter_read_timeout_secs=50), d)
r.client(0, '127.1.1.1', b'EMWIN')
r.ready([0])
for q in (5, 6, 7, 8):
    r.product(srv.simple(q, b'SDUS53 KWBC 010203\r\r\n', b'x' * 300))
r.marker()
r.op('until', 0, hx(bytes(x ^ 255 for x in b'/PFP%d' % pipe.SENT_SEQ)), 8000)
r.op('dump')
r.op('srvstop', 15000)
o = r.run()
check(not o.bad, o.bad)
(e, b), = o.streams[0]
b = bytes(x ^ 255 for x in b)
names = [b[i + 9:i + 21].strip() for i in range(0, len(b), 1116)]
check([n for n in names if n[:1] in b'ABC'] == [b'A5', b'B7', b'C8'], 'files %r' % names)
done()
''', **NETD)

bug('allow-carry', 'C17', 'a netfilter script that sets the default only for some clients, and at least two clients',
    'a client without a rule gets what the default of the client before it was',
    [('src/serverf.c', """  int allow_filter_default;
""", """  int allow_filter_default = NETFILTER_ALLOW_DEFAULT;
"""), ('src/serverf.c', """			       ALLOW_DEFAULT_INDEX, &allow_filter_default);
    if(status != 0){
      allow_filter_default = allow_hardcoded_default;
      status = 0;
    }
    """, """			       ALLOW_DEFAULT_INDEX, &allow_filter_default);
    if(status != 0){
      if(i == 0)
	allow_filter_default = allow_hardcoded_default;
      status = 0;
    }
    """)],
    r'''
import srv, pipe, pbt
ctx = pbt.Ctx('d_srv')
d = ctx.dir()
open(d + '/nf', 'w').write('if {$command == 1} {\narray unset allow\nif {[lindex $input 0] >= 100} {set allow(0) 1} elseif '
                           '{$serverinfo(clientip) eq "127.1.1.1"} {set allow(0) 1}\n}\nset output_status 0\n')
r = srv.Server(ctx, dict(servertype=3, netfilter_enable=1, netfilter=d + '/nf'), d)
for k in (0, 1):
    r.client(k, '127.1.1.%d' % (k + 1), b'NBS2')
    r.ready([k])
for q in (5, 6):
    r.product(srv.simple(q, b'SDUS53 KWBC 010203\r\r\n', b'x' * 300))
m = r.marker()
for k in (0, 1):
    r.op('until', k, hx(m), 8000)
r.op('dump')
r.op('srvstop', 15000)
o = r.run()
check(not o.bad, o.bad)
for k in (0, 1):
    (e, b), = o.streams[k]
    check((b'.010203_5' in b) == (k == 0), 'client %d and product 5' % k)
    check(b'_%d' % pipe.SENT_SEQ in b, 'client %d has no end' % k)
done()
''', **NETD)

bug('empty-pattern', 'C18', 'an accept list with two commas in a row',
    'the empty pattern between them matches every product, so that what the patterns before it say is lost',
    [('src/ure.c', """			       STRSPLIT_FLAG_IGNEMPTY);""", """			       STRSPLIT_FLAG_INCEMPTY);""")],
    r'''
e = build('d_core')
p = Pipe(patt_accept='sdus,,fxus,saus,^kzzz')
for q, w in ((5, b'SDUS53'), (6, b'NOUS42'), (7, b'SAUS70'), (8, b'FXUS61')):
    p.feed(*product(q, b'data', hdr=w + b' KWBC 010203\r\r\n'))
r = p.run(e)
check(r.announced == [5, 7, 8], 'announced %r' % r.announced)
done()
''', drivers=['d_core'])

bug('infifo-options', 'C19', 'a fifo among the masters of a slave, with options, and an empty one among them',
    'the options after the empty one are shifted by one place',
    [('src/slavet.c', """  for(i = 0; i < options_argc; ++i){
    if(strto_int(options_argv[i], &v) == 0)
      a[i] = v;
  }""", """  for(i = 0; i < options_argc; ++i){
    if((options_argv[i][0] == '\\0') && (slave->mastername == NULL)){
      /* an omitted option */
      ++options_argv;
      --options_argc;
    }
    if((i < options_argc) && (strto_int(options_argv[i], &v) == 0))
      a[i] = v;
  }""")],
    r'''
import net, pbt
e = build('d_net')
r = run(e, ['set feedmode 2', 'set masterservers ' + hx(b'1,a,,10,,20|3,/v/f,11,,12,13 2,b,1,,5'), 'set slave_masterport ' + hx(b'2210'),
            'set infifo -', 'set infifo_grp x', 'set slavestatsfile ' + hx(b'/x'), 'set slave_read_timeout_secs 101',
            'set slave_read_timeout_retry 102', 'set slave_reopen_timeout_secs 103', 'set slave_so_rcvbuf 104',
            'set slave_stats_logperiod_secs 105', 'conf'])
check(r.ended, 'no end: %r' % r.lines)
o = [l[5:] for l in get(r, 'slave')]
o = [l[-5:] for l in get(r, 'slave')]
check(o == [['10', '102', '20', '104', '105'], ['11', '102', '12', '13', '105'], ['101', '5', '103', '104', '105']], 'options %r' % o)
done()
''', drivers=['d_core', 'd_net'], libs=['net', 'pipe', 'sbn'])

bug('null-keeps', 'C20', 'a text option that has a default and is set to the empty string',
    'the option keeps its default instead of being empty, and the error of an empty value is not reported',
    [('src/libtclconf/tclconf.c', """    if(op->p != NULL)
      *(char**)var = op->p;""", """    if((op->p != NULL) && (op->p[0] != '\\0'))
      *(char**)var = op->p;""")],
    r"""
import os, tempfile
e = build('d_conf')
d = tempfile.mkdtemp(dir=TMP)
open(d + '/c', 'w').write('set home ""\nset servername "x"\nset dbhome /v/db\n')
r = run(e, ['load %s %s -' % (hx((d + '/o').encode()), hx((d + '/c').encode()))], dir=d)
check(r.ended, 'no end: %r' % r.lines)
v = {l[0]: l[1] for l in get(r, 'opt')}
check([v[x] for x in ('home', 'servername', 'dbhome')] == ['x', 'x78', hx(b'/v/db')], 'options %r' % [v['home'], v['servername']])
done()
""", drivers=['d_conf'])

if __name__ == '__main__':
    for a, k in P:
        if len(sys.argv) == 1 or a[0] in sys.argv[1:]:
            plant(*a, **k)
            print('planted', a[0])
