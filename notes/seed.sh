#!/bin/bash
# seed.sh ID...: confirm planted bugs, each in a private copy of /repo shown at /repo (mount namespace):
# the demo passes without and fails with the patch, and the stable tests pass with it
one() {
    id=$1; d=/verif/seeded/$id; w=/tmp/seed.$id
    rm -rf "$w" "$w.demo"; cp -a /repo "$w"; mkdir "$w.demo"; cp "$d"/* "$w.demo/"; rm -f "$w.demo/patch.diff" "$w.demo/meta.json"
    unshare -m bash -c '
        id=$1; d=$2; w=$3
        mount --bind "$w" /repo && cd /repo || exit 9
        bash /opt/vp/build.sh >"$w.log" 2>&1 || { echo "$id: base build failed"; exit 1; }
        bash "$w.demo/demo.sh" >>"$w.log" 2>&1 && r0=0 || r0=$?
        git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
        bash /opt/vp/build.sh >"$w.log" 2>&1 || { echo "$id: build failed"; tail -5 "$w.log"; exit 1; }
        bash "$w.demo/demo.sh" >>"$w.log" 2>&1 && r1=0 || r1=$?
        t=skipped
        if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh "$w.json" >/dev/null 2>&1; t=$(python3 - "$w.json" <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open(sys.argv[1]))
st=set(b.get("stable") or b.get("passed") or b)
ps=set(r.get("passed") or [k for k,v in r.items() if v in ("passed","pass",True)])
print("broken:", sorted(st-ps)[:3] if st-ps else "none")
P
); fi
        echo "$id: unchanged=$r0 patched=$r1 tests $t"
        [ $r0 = 0 ] && [ $r1 != 0 ] || tail -5 "$w.log"
    ' _ "$id" "$d" "$w"
    rm -rf "$w" "$w.demo" "$w.json" "$w.log"
}
export -f one
printf '%s\n' "$@" | xargs -P 2 -I{} bash -c 'one {}'
