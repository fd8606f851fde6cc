"""Planted bugs, seventh set (dafilter and what its rules see): python3 tools/plants7.py [ID...]"""
import sys
from seedtool import plant
P = []
T = 'from tclkit import *\nimport calendar, struct, tarfile, time, zlib\n'


def bug(*a, **k):
    k['tcl'] = True
    P.append((a, k))


DA = T + r'''
sample('dafilter.rc', 'dafilter.conf', 'archive.conf')
for x in ('data/digatmos', 'data/inv/digatmos', 'archive/data/digatmos', 'archive/inv/digatmos'):
    os.makedirs(VAR + '/noaaport/' + x)
CCB = b'@\x0c' + bytes(22)
NOW = calendar.timegm((2024, 7, 10, 15, 30, 0))


def rules(*r):
    put('etc/site/dafilter.rc', ''.join('lappend cond {%s}\nlappend action {%s}\n' % x for x in r))


def spool(fn, seq, data, t='101500'):
    return '%d 1 0 0 5 %s %s\n' % (seq, fn, put('work/spool/%s.%s_%d' % (fn, t, seq), data))


def da(lines):
    c, o = run('dafilter', stdin=''.join(lines), now=NOW)
    check(c == 0, 'dafilter: %d %s' % (c, o))
    return VAR + '/noaaport/data/digatmos/'


def show(*vs):
    rules(('1', 'set f [open %s a]; puts $f "%s"; close $f' % (WORK + '/out', ' '.join('$rc(%s)' % v for v in vs))))


def shown():
    return open(WORK + '/out').read().split('\n')[:-1]


def nids(t, size=60):
    h = bytearray(120)
    d, s = divmod(t, 86400)
    struct.pack_into('>hhIIhhh', h, 0, 19, d + 1, s, 120 + size, 1, 1, 3)
    struct.pack_into('>hiihh', h, 18, -1, 18116, -66078, 2794, 19)
    struct.pack_into('>hhhhHI', h, 32, 2, 212, 0, 1, d + 1, s)
    return bytes(h) + b'x' * size


def rad(t, awips='N0RJUA', squeeze=False):
    head = CCB + b'SDUS52 TJSJ 101500\r\r\n' + awips.encode() + b'\r\r\n' + nids(t)
    return CCB + b'SDUS52 TJSJ 101500\r\r\n' + awips.encode() + b'\r\r\n' + zlib.compress(head, 9) + zlib.compress(b'y' * 500, 9) if squeeze else head


def grib1(ftu=1, p1=6, p2=0):
    F = bytearray(40)
    F[0:4], F[7] = b'GRIB', 1
    for o, x in ((4, 7), (5, 84), (6, 211), (12, 24), (13, 7), (14, 10), (15, 12), (17, ftu), (18, p1), (19, p2)):
        F[8 + o] = x
    return CCB + b'YHQA98 KWBE 101500\r\r\n' + bytes(F)


def grib2(ftu=1, p1=6):
    s1 = bytearray(21)
    s1[0:5] = struct.pack('>IB', 21, 1)
    s1[5:9] = struct.pack('>HH', 7, 0)
    s1[12:18] = struct.pack('>HBBBB', 2024, 7, 10, 12, 0)
    s4 = bytearray(34)
    s4[0:5] = struct.pack('>IB', 34, 4)
    s4[13], s4[17] = 84, ftu
    s4[18:22] = struct.pack('>I', p1)
    return CCB + b'YHQA98 KWBE 101500\r\r\n' + b'GRIB\0\0\0\2' + bytes(8) + bytes(s1) + bytes(s4)
'''

bug('hhh-first', 'C35', 'a grib product with two forecast times',
    'rc(gribforecasttimehhh) is the first one, while the other variables have the second',
    [('filters/filterlib/tcl/filters.lib', '[format "%03d" $rc(gribforecasttimev)]', '[format "%03d" $rc(gribforecasttime1)]')], DA + r'''
put('etc/filters-gribid.def', 'set filtersgribid(ftu,1,1) h;\nset filtersgribid(ftu,unknown) u\n')
show('gribforecasttime', 'gribforecasttimehhh')
da([spool('kwbe_yhqa98+grib', i, grib1(1, *p)) for i, p in enumerate(((6, 0), (0, 0), (6, 12), (0, 24)))])
check(shown() == ['6h 006', '0h 000', '12h 012', '24h 024'], str(shown()))
done()
''')

bug('ftu-edition', 'C35', 'a grib edition 2 product whose unit of time has another code in edition 1, after which the table is asked',
    'its forecast time has the unit of the edition 1 code',
    [('filters/filterlib/tcl/filters-gribid.lib', """	if {[info exists filtersgribid(ftu,$ftu,$gribedition)]} {
	    set ftu $filtersgribid(ftu,$ftu,$gribedition);""", """	if {[info exists filtersgribid(ftu,$ftu,1)]} {
	    set ftu $filtersgribid(ftu,$ftu,1);""")], DA + r'''
put('etc/filters-gribid.def', ''.join('set filtersgribid(ftu,%s) %s;\n' % x for x in (('0,1', 'm'), ('1,1', 'h'), ('0,2', 'm'), ('1,2', 'h'), ('10,1', '3h'), ('10,2', '3H'), ('13,2', 's'), ('254,1', 's'))) +
    'set filtersgribid(ftu,unknown) u\n')
show('gribedition', 'gribforecasttime')
da([spool('kwbe_yhqa98+grib', i, g) for i, g in enumerate((grib1(1), grib2(1), grib1(10), grib2(10), grib2(13), grib1(254), grib2(77)))])
check(shown() == ['1 6h', '2 6h', '1 63h', '2 63H', '2 6s', '1 6s', '2 6u'], str(shown()))
done()
''')

bug('arc-regex', 'C36', 'the archive enabled, with an expression for its files that is not that of the data',
    'files the archive should have are missing from it, and others are in it',
    [('filters/dafilter/tcl/dalib-enable.tcl', '$dafilter(archive_file_enable) $dafilter(archive_file_regex) $key', '$dafilter(archive_file_enable) $dafilter(file_regex) $key')], DA + r'''
rules(*[('[regexp {%s} $rc(station)]' % s, 'filter_file rc $rc(seq) $rc(fpath) {my/%s} {x}' % s) for s in ('tjsj', 'kwbc', 'kfwd')])
put('etc/site/dafilter.conf', 'set dafilter(file_regex) {.*,!kwbc}\n')
put('etc/site/archive.conf', 'set archive(da,enable) 1; set archive(da,file_enable) 1; set archive(da,file_regex) {my/tjsj}\n')
d = da([spool(s + '_saus70-mtrsju', i, CCB + b'SAUS70 TJSJ 101500\r\r\nMTRSJU\r\r\nx') for i, s in enumerate(('tjsj', 'kwbc', 'kfwd'))])
check(sorted(os.listdir(d + 'my')) == ['kfwd', 'tjsj'], str(os.listdir(d + 'my')))
a = sorted(f for _, _, fs in os.walk(VAR + '/noaaport/archive/data/digatmos') for f in fs)
p = sorted(os.path.basename(x) for x, _, fs in os.walk(VAR + '/noaaport/archive/data/digatmos') if fs)
check(a == ['x.tar'] and p == ['tjsj'], 'archive %s %s' % (a, p))
done()
''')

bug('latest-first', 'C36', 'two satellite or radar products of different times in one directory',
    'latest stays at the first of them',
    [('filters/dafilter/tcl/dalib-dirlist.tcl', """        file delete $linkpath;
        # file link""", """        if {[file exists $linkpath] == 0} {file delete $linkpath};
        # file link""")], DA + r'''
rules(('1', 'filter_rad $rc(seq) $rc(fpath) my/r $rc(ymd_hm)'))
d = da([spool('tjsj_sdus52-n0rjua', 1, rad(NOW - 600))])
check(os.readlink(d + 'my/r/latest') == '20240710_1520', os.readlink(d + 'my/r/latest'))
da([spool('tjsj_sdus52-n0rjua', 2, rad(NOW - 300))])
check(os.readlink(d + 'my/r/latest') == '20240710_1525', os.readlink(d + 'my/r/latest'))
da([spool('tjsj_sdus52-n0rjua', 3, rad(NOW - 900))])
check(os.readlink(d + 'my/r/latest') == '20240710_1515', os.readlink(d + 'my/r/latest'))
check(open(d + 'my/r/list').read().split() == ['20240710_15' + x for x in ('15', '20', '25')], 'list')
done()
''')

bug('list-order', 'C36', 'a directory of radar files in which the list of the directory is not in the order of the names, as given by the file system',
    'the list has them in that order, with its own files',
    [('filters/dafilter/tcl/dalib-dirlist.tcl', """    set filelist [lsort \\
	[glob -nocomplain -tails -directory $dirpath "*"]];""", """    set filelist \\
	[glob -nocomplain -tails -directory $dirpath "*"];""")], DA + r'''
rules(('1', 'filter_rad $rc(seq) $rc(fpath) my/r $rc(awips)'))
n = ['n0rjua', 'n1rjua', 'zzzjua', 'n2rjua', 'aaajua', 'ptajua', 'latjua', 'mmmjua', 'kkkjua', 'n0qjua', 'dpajua', 'uuujua']
d = da([spool('tjsj_sdus52-' + a, i, rad(NOW, a.upper())) for i, a in enumerate(n)])
check(open(d + 'my/r/list').read().split('\n') == sorted(n) + [''], open(d + 'my/r/list').read())
done()
''')

if __name__ == '__main__':
    for a, k in P:
        if len(sys.argv) < 2 or a[0] in sys.argv[1:]:
            plant(*a, **k)
            print('planted', a[0])
