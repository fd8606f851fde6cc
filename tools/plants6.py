"""Planted bugs, sixth set (the Tcl programs and filters): python3 tools/plants6.py [ID...]"""
import sys
from seedtool import plant
P = []
T = 'from tclkit import *\nimport calendar, time\n'


def bug(*a, **k):
    k['tcl'] = True
    P.append((a, k))


bug('gmt-sticky', 'C30', 'a schedule with an entry in UTC before an entry in local time, in a zone with another hour',
    'the local entry is taken to be in UTC too',
    [('filters/filterlib/tcl/hscheduler.tcl', """    } else {
	set option(gmt) "";
    }""", """    } elseif {[info exists option(gmt)] == 0} {
	set option(gmt) "";
    }""")], T + r'''
now = calendar.timegm((2024, 7, 10, 15, 0, 0))          # 11 in New York
for first in ('H=03', 'H=03g', 'H=15g'):
    c, o = tcl('package require nbsp::hscheduler\nforeach s {%s H=11 H=15 D=1011 W=311 H/11} {puts -nonewline [nbsp::hscheduler::match_timespec $s]}' % first,
               now=now, tz='America/New_York')
    check(o == '%d10111' % (first == 'H=15g'), 'after %s: %s' % (first, o))
done()
''')

bug('period-lag', 'C30', 'a command with an interval in seconds of which several have passed since the last poll',
    'it runs again at each of the following polls, once for each interval that was missed',
    [('filters/filterlib/tcl/periodic.tcl', """	[::nbsp::periodic::_run_time_reset $now $periodic($cmd,run_period)];

    eval""", """	[::nbsp::periodic::_run_time_reset $periodic($cmd,run_time) \\
		$periodic($cmd,run_period)];

    eval""")], T + r'''
c, o = tcl("""
package require nbsp::syslog
nbsp::syslog::usesyslog 0
set ::env(NBSP_NOW) 1720000000
package require nbsp::periodic
nbsp::periodic::set_run_period 5
proc job {} {puts $::env(NBSP_NOW)}
nbsp::periodic::register job 20
foreach t {1720000010 1720000020 1720000031 1720000040 1720000051 1720000200 1720000206 1720000212 1720000218 1720000224} {
  set ::env(NBSP_NOW) $t
  nbsp::periodic::run
}
""", now=1720000000)
check(o.split() == ['1720000020', '1720000040', '1720000200', '1720000224'], 'ran at %s' % o.split())
done()
''')

bug('inv-dir-once', 'C31', 'more than one inventory given to nbspinvrm, of files in different directories',
    'only the files of the first one are deleted, and files of the same names there',
    [('utils/nbspinvrm/nbspinvrm.c', """  char *dir = NULL;
  int size;""", """  static char *dir = NULL;
  int size;""")], T + r'''
for n in (1, 2, 3):
    invs = []
    for i in range(n):
        invs.append(put('work/%d/inv/i%d' % (n, i), ''.join('%s/work/%d/d%d/f%d\n' % (TMP, n, i, k) for k in range(3))))
        for k in range(4):
            put('work/%d/d%d/f%d' % (n, i, k), 'x')
    run('nbspinvrm', '-s', *invs)
    left = sorted(os.path.relpath(d + '/' + f, TMP + '/work/%d' % n) for d, _, fs in os.walk(TMP + '/work/%d' % n) for f in fs)
    check(left == ['d%d/f3' % i for i in range(n)], '%d inventories: left %s' % (n, left))
done()
''')

bug('count-mix', 'C31', 'a rule by number with -d for a directory that has both files and subdirectories, in different numbers',
    'it deletes directories that should be kept, or keeps those that should go',
    [('scripts/nbspcleanup.tcl', """	set max_index_del [expr $dircount - $count - 1];""", """	set max_index_del [expr $filecount - $count - 1];""")], T + r'''
for nf, nd in ((0, 0), (5, 5), (5, 3), (3, 6), (7, 1)):
    w = 'work/%d.%d' % (nf, nd)
    os.makedirs(TMP + '/' + w)
    for i in range(nf):
        put(w + '/f%d' % i, 'x')
    for i in range(nd):
        put(w + '/d%d/y' % i, 'x')
    put('work/c.conf', 'H : %s/%s : -c 2 -d\n' % (TMP, w))
    run('nbspcleanup', '-f', TMP + '/work/c.conf')
    want = ['d%d' % i for i in range(nd)][-2:] + ['f%d' % i for i in range(nf)][-2:]
    check(sorted(os.listdir(TMP + '/' + w)) == want, '%d files, %d directories: left %s' % (nf, nd, sorted(os.listdir(TMP + '/' + w))))
done()
''')

MT = T + r'''
put('etc/metarfilter-st.conf', 'set collective(pr) "TJ|TI"\nset collective(all) "."\n')
os.makedirs(VAR + '/noaaport/data/metar')


def reports(*products, now):
    """(header ddhhmm, [report]) each; returns the files"""
    lines = []
    for i, (t, rs) in enumerate(products):
        p = put('spool/tjsj_sapr31.%s_%08d' % (t, i + 1), '\001\r\r\n%03d \r\r\nSAPR31 TJSJ %s\r\r\nMETAR ' % (i, t) + ''.join(r + '=\r\r\n' for r in rs) + '\003', 0o644)
        lines.append('%d 2 4 7 1 tjsj_sapr31-mtrpr %s' % (i + 1, p))
    conf('metarfilter.conf', '')
    c, o = run('metarfilter.tcl', stdin='\n'.join(lines) + '\n\n', now=now, env={})
    return o


def text(f):
    p = VAR + '/noaaport/data/metar/' + f
    return open(p).read().split('\n')[:-1] if os.path.exists(p) else None


'''

bug('report-again', 'C32', 'a report that is the same as an earlier one of the station which is not the last one',
    'it is not put at the head of the list of the station',
    [('filters/metarfilter/tcl/metarfilter.tcl.in', """    set lastobdata [lindex $summarylist 0];
    if {[string compare $lastobdata $obdata] != 0} {""", """    if {[lsearch -exact $summarylist $obdata] == -1} {""")], MT + r'''
a, b, c = ('TJSJ 101056Z 08005KT 10SM FEW030 27/24 A299%d' % i for i in (1, 2, 3))
o = reports(('101100', [a]), ('101101', [a]), ('101102', [b]), ('101103', [a]), ('101104', [c]), now=calendar.timegm((2024, 7, 10, 11, 5, 0)))
check(text('metarweather/pr/tjsj.metar') == [c, a, b, a], '%s %s' % (text('metarweather/pr/tjsj.metar'), o[-300:]))
done()
''')

bug('month-start', 'C32', 'a product of the last days of a month that arrives in the first ones of the next, which is shorter or longer',
    'the report goes into the daily file of another day',
    [('filters/filterlib/tcl/util.tcl', """    set days_in_month [_days_in_month $year $month];
    set prev_month_seconds""", """    set days_in_month [_days_in_month $current_year $current_month];
    set prev_month_seconds""")], MT + r'''
for i, (dd, y, m, d) in enumerate(((28, 2024, 7, 28), (30, 2024, 5, 1), (31, 2024, 8, 1), (29, 2024, 3, 1), (28, 2023, 3, 2), (31, 2024, 1, 1))):
    st = 'TJS' + 'ABCDEF'[i]
    o = reports(('%02d2300' % dd, [st + ' %02d2256Z 08005KT 10SM FEW030 27/24 A2991' % dd]), now=calendar.timegm((y, m, d, 1, 0, 0)) if d < 20 else calendar.timegm((y, m, d, 23, 5, 0)))
    t = calendar.timegm((y, m, d, 0, 0, 0)) - (86400 if d < 20 else 0)
    while time.gmtime(t).tm_mday != dd:
        t -= 86400
    ymd = time.strftime('%Y%m%d', time.gmtime(t))
    f = 'weatherscope/%s/daily/pr/%s_%s.metar' % (ymd, st.lower(), ymd)
    check(text(f) is not None, '%s at %d-%d-%d not in %s: %s' % (dd, y, m, d, f, o[-300:]))
done()
''')

MD = T + r'''
def values(r):
    c, o = run('nbspmtrd', '-t', '-k', '-d', '-e', r)
    return o.strip()


'''

bug('dewp-sign', 'C33', 'a report with a temperature above zero and a dew point below it',
    'the dew point is printed without its sign',
    [('tclmetar/tclmetar/src/lib/decode.tcl', """	     if {$s3 ne ""} {
		 set metar(param,dewp_c) "";""", """	     if {$s1 ne ""} {
		 set metar(param,dewp_c) "";""")], MD + r'''
for t, d, tf, df in (('27', '24', 80.6, 75.2), ('M05', 'M10', 23.0, 14.0), ('02', 'M03', 35.6, 26.6), ('00', 'M01', 32.0, 30.2), ('M00', 'M04', 32.0, 24.8)):
    v = values('KJFK 101056Z 08005KT 10SM FEW030 %s/%s A2995' % (t, d)).split(',')
    check(len(v) > 6 and float(v[5]) == tf and float(v[6]) == df, '%s/%s: %s' % (t, d, v))
done()
''')

bug('gust-octal', 'C33', 'a wind with a gust of 8 or 9 knots',
    'the report is not decoded',
    [('tclmetar/tclmetar/src/lib/decode.tcl', """		set s4 [string trimleft $s4 "0"];
		if {$s4 eq ""} {
		    set s4 0;
		}
	    }

	    if {$tok""", """		if {[string trim $s4 "0"] eq ""} {
		    set s4 0;
		}
	    }

	    if {$tok""")], MD + r'''
for g in (5, 7, 8, 9, 10, 18, 25, 108):
    c, o = run('nbspmtrd', '-d', '-e', 'KJFK 101056Z 08003G%02dKT 10SM FEW030 12/10 A2995' % g)
    m = [l for l in o.split('\n') if 'ust' in l]
    check(len(m) == 1 and re.search(r'\b%d\b' % int(g * 1.1508), m[0]), 'gust %d: %s' % (g, m or o[-200:]))
done()
''')

DISP = T + r'''
REC = TMP + '/rec'
for x in ('die', 'dead'):
    os.makedirs(REC + '/' + x)
BASE = {'NBSP_REC': REC}


def filt(path):
    put(path, open(TMP + '/filterrec', 'rb').read(), 0o755)


def line(seq, fname):
    return '%d 1 0 1 2 %s /var/noaaport/nbsp/spool/%s/%s.031530_%08d' % (seq, fname, fname[:4], fname, seq)


def feed(script, msgs):
    """msgs: (seq, fname, name of the filter that ends after it or None)"""
    for s, f, n in msgs:
        if n:
            put('rec/die/%s.%d' % (n, s), 'exit\n')
    p = start(script, env=BASE)
    for s, f, n in msgs:
        p.stdin.write((line(s, f) + '\n').encode())
        p.stdin.flush()
        d = REC + '/dead/%s.%d' % (n, s)
        k = 0
        while n and k < 4000:
            k += 1
            time.sleep(0.005)
            if os.path.exists(d) and open(d).read().strip():
                q = '/proc/%s/stat' % open(d).read().strip()
                if not os.path.exists(q) or ') Z ' in open(q).read():
                    break
    p.stdin.write(b'\n')
    o = p.communicate(timeout=60)[0].decode('latin1')
    got = {}
    for f in sorted(glob.glob(REC + '/log.*'), key=os.path.getmtime):
        l = open(f).read().split('\n')
        got.setdefault(l[0], []).extend(x for x in l[1:-1] if x not in ('', 'EOF'))
    return got, o


'''

bug('no-rewrite', 'C34', 'a filter that has ended when a product is written to it',
    'it is started again, but it does not get that product',
    [('filters/masterfilter/tcl/masterfilter.tcl.in', """    set status [catch {puts $masterfilter($filtername,F) $msg} errmsg];

    if {$status != 0} {
	log_msg $errmsg;""", """    set status [catch {flush $masterfilter($filtername,F)} errmsg];

    if {$status != 0} {
	log_msg $errmsg;""")], DISP + r'''
filt('lib2/afilter')
filt('lib2/bfilter')
conf('masterfilter.conf', 'set masterfilter(libdir) {%s/lib2}\nset masterfilter(filterlist) [list afilter bfilter]\n' % TMP)
msgs = [(i, 'tjsj_saus42-mtrsju', {3: 'afilter', 6: 'bfilter'}.get(i)) for i in range(1, 10)]
got, o = feed('masterfilter.tcl', msgs)
want = [line(s, f) for s, f, _ in msgs]
for n in ('afilter', 'bfilter'):
    check(sorted(got.get(n, [])) == sorted(want), '%s got %s %s' % (n, [x.split()[0] for x in got.get(n, [])], o[-300:]))
done()
''')

bug('reject-final', 'C34', 'a list of expressions in which a later one accepts what an earlier one rejects',
    'the product is rejected',
    [('filters/filterlib/tcl/filters.lib', """	if {[regexp -- $reg $str]} {
	    set status $v;
	}""", """	if {[regexp -- $reg $str] && ([set status $v] == 0)} {
	    break;
	}""")], DISP + r'''
filt('lib2/worker')
os.makedirs(VAR + '/noaaport/data/digatmos')
conf('dafilter.conf', 'set dafilter(slave) {%s/lib2/worker}\nset dafilter(slave,types) [list a]\nset dafilter(slave,a,ure) {_s,!^k,^kwbc,!-pan}\n'
     'set dafilter(datadir) {%s/work}\n' % (TMP, TMP))
names = ['tjsj_saus42-mtrsju', 'kjsj_saus42', 'kwbc_saus42', 'kwbc_saus42-pan', 'tjsj_fpus42', 'kwbc_fpus42']
got, o = feed('dafilter-manager.tcl', [(i + 1, n, None) for i, n in enumerate(names)])
g = [x.split()[5] for v in got.values() for x in v]
check(g == [names[0], names[2], names[5]], 'got %s %s' % (g, o[-300:]))
done()
''')

if __name__ == '__main__':
    for a, k in P:
        if len(sys.argv) == 1 or a[0] in sys.argv[1:]:
            plant(*a, **k)
            print('planted', a[0])
