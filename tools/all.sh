#!/bin/bash
# all.sh [RUNS]: every check for a few runs on the current tree (do this before every commit)
cd "$(dirname "$0")/.."
for c in $(ls checks | grep -oE "^c[0-9]+" | sort -u | tr c C); do
	timeout 300 ./check $c --no-evidence --workers ${WORKERS:-3} --runs ${1:-250} > /tmp/all.$c 2>&1
	echo $c rc=$? $(tail -1 /tmp/all.$c | cut -c1-100)
done
