#!/bin/bash
# trybug.sh ID [PROP...]: validate a planted bug in a scratch copy and run checks on it
V=$(cd "$(dirname "$0")/.." && pwd); id=$1; shift
S=/tmp/bug_$id; B=$V/seeded/$id
rm -rf "$S"; cp -a /repo "$S"; cd "$S" || exit 2
git apply "$B/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "$S"; exit 1; }
make linux >"$S/mk.log" 2>&1; 
# header-less makefiles: force a rebuild of what the patch touches
find src \( -name '*.o' -o -name '*.a' \) -delete; rm -rf bin; mkdir -p bin src/obj; make linux >"$S/mk.log" 2>&1 || { echo "$id: DOES NOT BUILD"; tail -5 $S/mk.log; exit 1; }
f=0; for t in tests/*-test.sh; do (cd tests && timeout 60 bash ./roundup $(basename $t) 2>&1 </dev/null) | grep -E '\[FAIL\]' && f=1; done
[ $f = 1 ] && echo "$id: TESTS FAIL"
D=/tmp/demo_$id; rm -rf "$D"; cp -r "$B" "$D"; rm -f "$D"/patch.diff "$D"/meta.json
(cd /repo && timeout 300 bash "$D/demo.sh" >/tmp/demo_$id.clean 2>&1); a=$?
(cd "$S" && timeout 300 bash "$D/demo.sh" >/tmp/demo_$id.bug 2>&1); b=$?
[ $a = 0 ] && [ $b != 0 ] && echo "$id: demo ok ($(tail -1 /tmp/demo_$id.bug | cut -c1-150))" || { echo "$id: DEMO BAD clean=$a bug=$b"; tail -n 3 /tmp/demo_$id.clean /tmp/demo_$id.bug; }
for p in "$@"; do
  (cd $V && VERIF_NOEVIDENCE=1 VERIF_REPO=$S VERIF_TIER=quick VERIF_SEED=${VERIF_SEED:-1} ./check $p >/tmp/chk_$id.$p 2>&1); r=$?
  echo "$id: check $p exit $r $(grep -E '^failure' /tmp/chk_$id.$p | cut -c1-200)"
done
rm -rf "$S" "$D" /tmp/demo_$id.*
