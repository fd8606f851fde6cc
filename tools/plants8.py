"""Planted bugs, eighth set (inventory, recovery, batches, rules): python3 tools/plants8.py [ID...]"""
import sys
from seedtool import plant
P = []
T = r'''from tclkit import *
import calendar, tarfile, time
REC = TMP + '/rec'
os.makedirs(REC)
put('etc/site/filters.conf', CONF + 'set env(PATH) {%s:%s:/usr/bin:/bin};\n' % (BIN, LIB))
ENV = {'REC': REC}


def fake(name, text):
    put('bin/' + name, '#!/bin/sh\n' + text, mode=0o755)


def t(*a):
    return calendar.timegm(a + (0,) * (6 - len(a)))


def rec(name):
    p = REC + '/' + name
    return open(p).read().split('\n')[:-1] if os.path.exists(p) else []


def r(*a, **k):
    k.setdefault('env', ENV)
    c, o = run(*a, **k)
    return c, o
'''


def bug(*a, **k):
    k['tcl'] = True
    P.append((a, k))


INV = 'filters/inventory/tcl/'
bug('quit-uncounted', 'C37', 'the end of the inventory filter with products in the last minute',
    'the counters of the last minute are not written when the filter is told to quit',
    [(INV + 'inventory.tcl.in', """	    log_msg "Received request to quit.";
	    break;""", """	    log_msg "Received request to quit.";
	    set inventory(FP_open) 0;
	    break;""")], T + r'''
D = VAR + '/noaaport/nbsp/inv'
os.makedirs(D)
p = put('work/tjsj_saus42.101500_1', 'x' * 30)
c, o = r('inventory', stdin='1 1 1 1 3 tjsj_saus42 %s\n\n' % p, now=t(2024, 7, 10, 15, 1))
l = open(D + '/15.stats').read().split() if os.path.exists(D + '/15.stats') else []
check(l[5:6] == ['1'] and l[14:15] == ['30'], '%s %s' % (l, o))
done()
''')

bug('stats-mean', 'C37', 'statistics with more than one line',
    'nbspstats divides the frames received by the number of their fields instead of the number of lines',
    [(INV + 'nbspstats.tcl', """	  printf(fmt, "frames received", frames_received, frames_received/NR,""", """	  printf(fmt, "frames received", frames_received, frames_received/NF,""")], T + r'''
p = put('work/s', ''.join('%d 1000 0 0 0 0 10 10 0 0 0 0 0 0 0 0 0\n' % (t(2024, 7, 10, 15, i)) for i in range(4)))
c, o = r('nbspstats', '-s', p)
check('frames received\t4.000e+03\t1.000e+03\t1000' in o, o)
done()
''')

bug('plot-from', 'C37', 'option -h with an hour for which there are data',
    'the data of the first hour asked for are left out',
    [(INV + 'nbspstatplotdata.tcl', '([string compare $HH $option(h)] == -1)', '([string compare $HH $option(h)] != 1)')], T + r'''
p = put('work/s', ''.join('%d 1 0 0 0 0 10 10 0 0 0 0 0 0 0 0 0\n' % (t(2024, 7, 10, i)) for i in range(10, 14)))
c, o = r('nbspstatplotdata', '-D', '10', '-h', '12', p)
check([x.split()[0] for x in o.strip().split('\n')] == ['12', '13'], o)
done()
''')

RC = 'filters/recover/tcl/'
REL = T + r'''
fake('curl', """echo "$@" >> $REC/curl
while [ $# -gt 1 ]; do [ "$1" = -o ] && o=$2; shift; done
[ -f $REC/fail ] && { n=`cat $REC/fail`; [ $n -gt 0 ] && { echo $((n - 1)) > $REC/fail; echo no >&2; exit 22; }; }
echo data > $o
""")
fake('nbspinsert', 'echo "$@" >> $REC/ins\n')
for x in ('recover', 'spool'):
    os.makedirs(VAR + '/noaaport/nbsp/' + x)
put('etc/recover.conf', '')


def line(seq, name='tjsj_saus42'):
    return '1720620000 %d 1 2 3 4 %s.101500_%d\n' % (seq, name, seq)
'''
bug('first-again', 'C38', 'a first run with exactly one missing product, and a second one',
    'the first line is handed on again in the second run',
    [(RC + 'nbsprecover.tcl', 'if {$last_end >= 0} {', 'if {$last_end > 0} {')], REL + r'''
m = put('work/missing', line(1))
r('nbsprecover', '-f', m)
put('work/missing', line(1) + line(2))
r('nbsprecover', '-f', m)
check(len(rec('curl')) == 2 and [x.split()[-7] for x in rec('ins')] == ['1', '2'], '%s %s' % (rec('curl'), rec('ins')))
done()
''')
bug('one-less', 'C38', 'a product that the other server gives only at the last retry',
    'one retry less than configured is made',
    [(RC + 'recover.tcl.in', 'while {$count <= $recover(curl_retries)} {', 'while {$count < $recover(curl_retries) || $count == 0} {')], REL + r'''
put('rec/fail', '2')
r('recover', stdin=line(5), now=t(2024, 7, 10, 15))
check(len(rec('curl')) == 3 and len(rec('ins')) == 1, '%s %s' % (rec('curl'), rec('ins')))
done()
''')
bug('log-local', 'C38', 'a local time that differs from UTC, in the hours in which the day differs',
    'the line of the log goes to the file of the local day',
    [(RC + 'recover.tcl.in', """    set logfname [clock format [clock seconds] \\
	    -gmt true -format""", """    set logfname [clock format [clock seconds] \\
	    -format""")], REL + r'''
r('recover', stdin=line(5), now=t(2024, 7, 10, 1), tz='America/Puerto_Rico')
check(os.listdir(VAR + '/noaaport/nbsp/recover') == ['20240710.log'], str(os.listdir(VAR + '/noaaport/nbsp/recover')))
done()
''')
bug('two-dots', 'C38', 'a product whose name is not 18 characters long',
    'the name announced for a recovered product is the first 18 characters of that of its file',
    [(RC + 'recover.tcl.in', 'set rc(fname) [file rootname $rc(fbasename)];', 'set rc(fname) [string range $rc(fbasename) 0 17];')], REL + r'''
r('recover', stdin=line(5, 'tjsj_saus42-mtrsju') + line(6, 'tjsj_fpus') + line(7, 'kwbc_yzdz98+grib2'), now=t(2024, 7, 10, 1))
check([x.split()[-2] for x in rec('ins')] == ['tjsj_saus42-mtrsju', 'tjsj_fpus', 'kwbc_yzdz98+grib2'], str(rec('ins')))
done()
''')

B = T + r'''
fake('curl', """for u; do :; done
echo $u >> $REC/curl
[ -f $REC/now ] && { read n < $REC/now; echo $((n + 40)) > $REC/now; }
while [ $# -gt 1 ]; do [ "$1" = -o ] && o=$2; shift; done
case $u in */inv/*) [ -f $REC/inv.${u##*/} ] && cat $REC/inv.${u##*/};; *) echo data > $o;; esac
exit 0
""")
fake('proc', 'cat >> $REC/proc\n')
os.makedirs(WORK + '/batch')


def inv(hm, *names):
    put('rec/inv.' + hm, ''.join('1720620000 %d 1 2 3 4 99 %s\n' % (100 + i, x) for i, x in enumerate(names)))


def asked():
    return [x.split('/')[-1] for x in rec('curl') if '/inv/' in x]
'''
bug('end-of-run', 'C39', 'a run of update during which a minute begins',
    'the time of the end of the run is kept instead of that of its start, so that the minutes in between are never asked for',
    [(INV + 'nbspbatch.tcl', """    if {$option(l) ne ""} {
	exec echo $now > $batch_logfile;
    }

    return 0;""", """    if {$option(l) ne ""} {
	exec echo [clock seconds] > $batch_logfile;
    }

    return 0;""")], B + r'''
e = dict(ENV, NBSP_NOWFILE=REC + '/now')
for m in (10, 13, 16):
    put('rec/now', str(t(2024, 7, 10, 15, m, 30)))
    r('nbspbatch', 'update', '-q', 'x:1', env=e, now=1)
check(asked() == ['1509', '1510', '1511', '1512', '1513', '1514', '1515'], str(asked()))
done()
''')
bug('expr-path', 'C39', 'an expression of nbspbatch filter that matches the directory, or one with ^',
    'nbspbatch filter matches the expression with the full path instead of the name',
    [(INV + 'nbspbatch.tcl', """	if {[uwildmat $option(e) $fname 1] == 0} {
	    continue;
	}
	
""", """	if {[uwildmat $option(e) $fpath 1] == 0} {
	    continue;
	}
	
""")], B + r'''
inv('1510', 'tjsj_saus42.101500_1', 'kwbc_fpus52.101500_2')
r('nbspbatch', 'get', '-q', '-h', '1510', 'x:1')
r('nbspbatch', 'filter', '-e', '^tjsj', '-p', 'proc', '-a')
check([x.split()[5] for x in rec('proc')] == ['tjsj_saus42'], str(rec('proc')))
done()
''')
bug('same-minute', 'C39', 'two runs of update within a minute',
    'the second run of update within the same minute asks for the present minute, which is not yet complete, and again later',
    [(INV + 'nbspbatch.tcl', """    if {($option(t) eq "") && ([file exists $batch_logfile] == 0)} {
	set option(h) "";""", """    if {($option(t) eq "") && (([file exists $batch_logfile] == 0) || \\
            ($now - [string trim [exec cat $batch_logfile]] < 60))} {
	set option(h) "";""")], B + r'''
for m, s in ((10, 5), (10, 50), (12, 0), (12, 50)):
    r('nbspbatch', 'update', '-q', 'x:1', now=t(2024, 7, 10, 15, m, s))
check(asked() == ['1509', '1510', '1511'], str(asked()))
done()
''')

bug('allow-stays', 'C40', 'a product that a rule allows for a host, followed by one for which no rule says anything',
    'what the rules allowed for one product stays for the next one',
    [('filters/netfilter/tcl/netfilter.tcl.in', """    if {[array exists allow]} {
        array unset allow;
    }""", """    if {[array exists allow]} {
        array unset allow 0;
    }""")], T + r'''
sample('netfilter.rc', 'netfilter.conf')
put('etc/site/netfilter.rc', 'lappend cond {$rc(station) eq "tjsj"}\nlappend action {set allow(192.0.2.1) 1}\n')
put('lib/drv', """set command 0
source %s/netfilter
set command 1
foreach s {tjsj kwbc} {
    set input "1 1 1 1 1 ${s}_saus42 /no/${s}_saus42.101500_1"
    source %s/netfilter
    puts "=> [lsort [array names allow]]"
}
""" % (LIB, LIB))
c, o = r('drv', now=t(2024, 7, 10, 15))
check([x[3:] for x in o.split('\n') if x.startswith('=> ')] == ['0 192.0.2.1', '0'], o)
done()
''')
bug('second-set', 'C40', 'rules in two files for nbspfilter, with the condition of the second one true',
    'the actions of the second and later files are taken at the wrong place',
    [('filters/nbspfilter/tcl/nbspfilter.tcl.in', """    foreach condlist $nbspfilter(condition) {
        set actionlist [lindex $nbspfilter(action) $i];
	set j 0;	# counts the rules with each set
	foreach c $condlist {""", """    set j 0;	# counts the rules with each set
    foreach condlist $nbspfilter(condition) {
        set actionlist [lindex $nbspfilter(action) $i];
	foreach c $condlist {""")], T + r'''
sample('nbspfilter.rc', 'nbspfilter.conf')
for x, f in (('one', 'etc/site/nbspfilter.rc'), ('two', 'etc/rc.d/nbsp/x.rc')):
    put(f, 'lappend cond {1}\nlappend action {set f [open %s a]; puts $f %s; close $f}\n' % (WORK + '/out', x))
c, o = r('nbspfilter', stdin='1 1 1 1 1 tjsj_saus42 /no/tjsj_saus42.101500_1\n', now=t(2024, 7, 10, 15))
check(open(WORK + '/out').read() == 'one\ntwo\n', o)
done()
''')
bug('day-local', 'C40', 'a local time that differs from UTC, in the hours in which the day differs',
    'spoolfilter uses the directory of the local day',
    [('filters/spoolfilter/tcl/spoolfilter.tcl.in', """				-format $spoolfilter(datasubdir) -gmt true] \\""", """				-format $spoolfilter(datasubdir)] \\""")], T + r'''
sample('spoolfilter.conf')
D = VAR + '/noaaport/archive/data/spool'
os.makedirs(D)
p = put('work/tjsj_saus42.101500_1', '@' * 24 + 'text')
r('spoolfilter', stdin='1 1 1 1 1 tjsj_saus42 %s\n' % p, now=t(2024, 7, 10, 1), tz='America/Puerto_Rico')
check(os.listdir(D) == ['20240710'], str(os.listdir(D)))
done()
''')
bug('arc-missing', 'C40', 'a product whose file is not there, among others that are archived',
    'the product that could not be archived is listed in the archive inventory',
    [('filters/arcfilter/tcl/arclib.tcl', """    if {$status != 0} {
	log_msg $errmsg;
	return;
    }
""", """    if {$status != 0} {
	log_msg $errmsg;
    }
""")], T + r'''
sample('arcfilter.rc', 'arcfilter.conf')
for x in ('data', 'inv'):
    os.makedirs(VAR + '/noaaport/archive/' + x)
put('etc/site/arcfilter.rc', 'lappend cond {1}\nlappend action {arcfilterlib_tar rc a.tar a.inv}\n')
p = put('work/tjsj_saus42.101500_1', '@' * 24 + 'text')
r('arcfilter', stdin='1 1 1 1 1 tjsj_saus42 %s\n2 1 1 1 1 kwbc_saus42 /no/kwbc_saus42.101500_2\n' % p, now=t(2024, 7, 10, 15, 5))
l = open(VAR + '/noaaport/archive/inv/a.inv').read().split('\n')[:-1]
check(len(l) == 1 and l[0].startswith('tjsj,saus42,,101500,'), str(l))
done()
''')
bug('craft-zone', 'C40', 'a local time that differs from UTC',
    'the number that craftinsert gives to a file counts from the local midnight, and is negative or belongs to another time',
    [('filters/craftfilter/tcl/craftinsert.tcl', 'set s1 [clock scan ${_datestr} -gmt 1];', 'set s1 [clock scan ${_datestr}];')], T + r'''
put('etc/craftinsert.conf', 'set craftinsert(nbsp_spooldir) %s/sp\n' % WORK)
os.makedirs(WORK + '/sp')
fake('nbspinsert', 'echo "$@" >> $REC/ins\n')
fake('logger', ':\n')
p = put('work/TJUA_20240710_0200.tmp', 'x')
r('craftinsert', p[:-4], now=t(2024, 7, 10, 2, 0, 10), tz='America/Puerto_Rico')
n = rec('ins')[0].split()
check(n[-7].isdigit() and 7200000 <= int(n[-7]) < 7300000, str(n))
done()
''')

if __name__ == '__main__':
    for a, k in P:
        if len(sys.argv) == 1 or a[0] in sys.argv[1:]:
            plant(*a, **k)
