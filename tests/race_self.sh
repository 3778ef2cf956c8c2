#!/bin/bash
# every bad-* scenario must be reported and every good-* scenario must stay quiet
cd "$(dirname "$0")/.."; rc=0
for s in $(grep -o '"\(bad\|good\)-[a-z]*"' tests/race_self.cpp | tr -d '"'); do
	python3 run.py TRACE --only "$s" > /tmp/race_self.out 2>&1; r=$?
	case $s in bad-*) [ $r = 1 ] || { echo "FAIL $s ($r)"; rc=1; };; *) [ $r = 0 ] || { echo "FAIL $s ($r)"; head -20 /tmp/race_self.out; rc=1; };; esac
	[ -n "$V" ] && { echo "== $s $r"; grep -v '^$' /tmp/race_self.out | head -5; }
done
rm -f /verif/evidence/TRACE.json; exit $rc
