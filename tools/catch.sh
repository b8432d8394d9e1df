#!/bin/bash
# catch.sh SEEDED_DIR [PROP...]: which checks report the planted bug (run on a copy of /repo in a mount namespace)
B=$(realpath "$1"); ID=$(basename "$B"); shift
P=${*:-$(/usr/bin/python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$B/meta.json")}
W=$(mktemp -d /tmp/catch.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; (cd "$W/repo" && git apply "$B/patch.diff") || { echo "$ID: does not apply"; exit 1; }
for p in $P; do
cat > "$W/run.sh" <<EOS
mount --bind "$W/repo" /repo
cd /verif && ./check $p --no-evidence --workers ${WORKERS:-4}
EOS
t0=$(date +%s)
unshare -m sh "$W/run.sh" > "$W/out" 2>&1; rc=$?
echo "$ID: $p rc=$rc $(($(date +%s)-t0))s $(grep -m1 VIOLATION "$W/out")"
[ $rc = 0 ] || [ $rc = 1 ] || tail -5 "$W/out"
done
