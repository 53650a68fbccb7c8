#!/bin/bash
# Checks the executor itself: every assertion of harness/SELF that can fail is reported, and no other.
H=$(cd "$(dirname "$0")/.." && pwd)
cd "$H" && bash setup.sh && . ./env.sh || exit 2
out=$(build/vxcheck SELF 2>&1)
rc=0
for m in $(grep -o 'Assert(.*"[a-z]*[0-9]*")' harness/SELF/self.go | sed 's/.*"\([a-z0-9]*\)")$/\1/' | sort -u); do
	n=$(grep -Ec ": assertion failed: $m$|^ *$m at .*: not replayed" <<<"$out")
	case $m in
	never|o[0-9]*) [ "$n" = 0 ] || { echo "reported: $m"; rc=1; } ;;
	*) [ "$n" != 0 ] || { echo "not reported: $m"; rc=1; } ;;
	esac
done
grep -Eq "VX_SELF_bad_race .*VIOLATED" <<<"$out" || { echo "races not reported"; rc=1; }
grep -Eq "VX_SELF_ok_race .* ok" <<<"$out" || { echo "races reported"; rc=1; }
grep -a REDUCED <<<"$out" && rc=1
[ $rc = 0 ] && echo "the executor reports what it should"
exit $rc
