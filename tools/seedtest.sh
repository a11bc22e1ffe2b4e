#!/bin/bash
# tools/seedtest.sh ID...: does each planted bug count, and does the quick check of its property catch it?
# The bug is applied in a copy of /repo that is laid over /repo in a private mount namespace.
for id in "$@"; do
  d=/verif/seeded/$id
  s=$(mktemp -d /tmp/st.XXXXXX)
  cp -a /repo/. "$s/"
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  unshare -Urm bash -c '
    s=$1 d=$2 id=$3 prop=$4
    mount --bind "$s" /repo || exit 9
    cd /repo
    r="$id $prop:"
    git -C /repo status --short | grep -q . && r="$r DIRTY"
    bash /opt/vp/build.sh >/dev/null 2>&1
    bash "$d/demo.sh" >/tmp/st.log 2>&1; a=$?
    [ $a = 0 ] || r="$r demo-fails-clean($a)"
    if git apply "$d/patch.diff"; then
      if bash /opt/vp/build.sh >/tmp/st.build 2>&1; then
        bash /opt/vp/test.sh $s/out.json >/dev/null 2>&1
        python3 - $s/out.json <<E || r="$r TESTS-FAIL"
import json,sys
o=json.load(open("$s/out.json")); b=json.load(open("/opt/vp/BASELINE.json"))
p=set(o.get("passed",o if isinstance(o,list) else []))
base=b.get("passed") or b.get("stable") or b.get("tests")
base=set(x if isinstance(x,str) else x.get("id",x.get("name")) for x in base)
sys.exit(0 if base<=p else 1)
E
        bash "$d/demo.sh" >/tmp/st.log 2>&1; b=$?
        [ $b = 0 ] && r="$r demo-passes-patched"
        if [ -z "$NOCHECK" ]; then
          cd /verif; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 run.py $prop --tier quick >/tmp/st.check 2>&1; c=$?
          if [ $c = 1 ] && grep -q "^VIOLATION property=$prop" /tmp/st.check; then r="$r caught"; else r="$r MISSED($c)"; fi
        fi
      else r="$r NOBUILD"; fi
    else r="$r NOAPPLY"; fi
    echo "$r"
  ' _ "$s" "$d" "$id" "$prop"
  rm -rf "$s"
done
