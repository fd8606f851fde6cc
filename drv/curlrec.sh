#!/bin/sh
# Stands in for curl, nbspinsert and other programs: records its arguments (and input, if it has none) below $NBSP_REC.
# web/<url> is what curl gets; fail/<url> tells how many times it fails first.  nbspinsert fails for the numbers in fail/insert.
name=${0##*/}
{ printf %s "$name"; for a; do printf '\037%s' "$a"; done; echo; } >> "$NBSP_REC/calls"
if [ "$name" != curl ]; then
    for last; do :; done
    case " $* " in *" -i "*) { cat; echo; } | sed 's/^/ /' >> "$NBSP_REC/calls";; esac
    if [ $# = 0 ]; then
        sed 's/^/ /' >> "$NBSP_REC/calls"
        [ -f "$NBSP_REC/fail/$name" ] || exit 0
    else
        [ -f "$last" ] && echo " file" >> "$NBSP_REC/calls"
        for a; do [ -f "$NBSP_REC/fail/$name.$a" ] && set -- fail; done
        [ "$1" = fail ] || exit 0
    fi
    echo "cannot $name" >&2
    exit 1
fi
out=
url=
while [ $# -gt 0 ]; do
    case "$1" in
    -o) out=$2; shift;;
    -m) shift;;
    -*) ;;
    *) url=${1#http://};;
    esac
    shift
done
if [ -f "$NBSP_REC/step" ]; then
    # every request takes its time
    read step < "$NBSP_REC/step"
    read now < "$NBSP_REC/now"
    echo $((now + step)) > "$NBSP_REC/now"
fi
n=0
[ -f "$NBSP_REC/fail/$url" ] && read n < "$NBSP_REC/fail/$url"
if [ "$n" -gt 0 ] || [ ! -f "$NBSP_REC/web/$url" ]; then
    [ "$n" -gt 0 ] && echo $((n - 1)) > "$NBSP_REC/fail/$url"
    echo "curl: (22) The requested URL returned error: 404" >&2
    exit 22
fi
if [ "$out" ]; then
    cat "$NBSP_REC/web/$url" > "$out"
else
    cat "$NBSP_REC/web/$url"
fi
