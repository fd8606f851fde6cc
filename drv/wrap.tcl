# tclsh wrap.tcl <script> <args>: runs a script of the installation.  A line "@now <seconds>" on the standard input sets
# the time of day for what follows, "@tz <zone>" the local zone; "@gone <file>" waits until the process whose pid is in the
# file has ended, "@mv <a> <b>" renames a file.  The script does not see these lines.
set ::argv0 [lindex $argv 0]
set ::argv [lrange $argv 1 end]
set ::argc [llength $::argv]
rename gets ::wrap_gets
proc wrap_gone {file} {
    for {set i 0} {$i < 1500} {incr i} {
        if {![catch {set f [open $file r]; set pid [string trim [read $f]]; close $f}] && $pid ne ""} {
            if {[catch {set f [open /proc/$pid/stat r]; set st [read $f]; close $f}]} {return}
            if {[regexp {\) Z } $st]} {return}
        }
        after 2
    }
}
proc gets {chan args} {
    while {1} {
        set n [::wrap_gets $chan line]
        if {$chan eq "stdin" && [regexp {^@(now|tz|gone|mv) (.*)$} $line -> what value]} {
            switch $what {
                now {set ::env(NBSP_NOW) $value}
                tz {set ::env(TZ) $value}
                gone {wrap_gone $value}
                mv {catch {file rename -force {*}$value}}
            }
            continue
        }
        break
    }
    if {[llength $args]} {
        upvar 1 [lindex $args 0] v
        set v $line
        return $n
    }
    return $line
}
source $::argv0
