#!/bin/bash
# trybug.sh SEEDED_DIR [fast]: does this planted bug qualify? Builds and tests a copy of /repo in a mount namespace.
B=$(realpath "$1"); ID=$(basename "$B")
W=$(mktemp -d /tmp/trybug.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp -a /opt/build "$W/build" 2>/dev/null || mkdir "$W/build"
cp -a "$B" "$W/demo"; rm -f "$W"/demo/*.diff "$W/demo/meta.json"
(cd "$W/repo" && git apply --check "$B/patch.diff") || { echo "$ID: patch does not apply"; exit 1; }
cat > "$W/run.sh" <<EOS
mount --bind "$W/repo" /repo; mount --bind "$W/build" /opt/build
cd /repo
timeout 300 bash "$W/demo/demo.sh" > "$W/demo0.log" 2>&1; r0=\$?
git apply "$B/patch.diff"
bash /opt/vp/build.sh > "$W/build.log" 2>&1; rb=\$?
timeout 300 bash "$W/demo/demo.sh" > "$W/demo1.log" 2>&1; r1=\$?
echo "$ID: demo clean=\$r0 patched=\$r1 build=\$rb"
[ \$r0 = 0 ] || tail -5 "$W/demo0.log"
[ \$r1 != 0 ] || echo "$ID: demo passes with the patch"
[ "$2" = fast ] || bash /opt/vp/test.sh "$W/out.json" > "$W/test.log" 2>&1
EOS
unshare -m sh "$W/run.sh"
[ "$2" = fast ] || /opt/venv/bin/python - "$W/out.json" "$ID" <<'EOS'
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(sys.argv[1]))
def names(x, key): 
    v = x.get(key, x if isinstance(x, list) else [])
    return set(v)
base = None
for k in ("stable_pass", "stable", "passed", "tests", "pass"):
    if k in b: base = set(b[k]); break
got = set(o.get("passed") or o.get("pass") or [])
miss = sorted(base - got)
print(sys.argv[2] + ": tests broken:", len(miss), miss[:3])
EOS
