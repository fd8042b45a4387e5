#!/bin/bash
# try_bug.sh ID [prop...] : applies a planted bug to /repo, builds, tests, runs its demo and the
# checks of its property (or of the given ones), and undoes it. For development only.
id=$1; shift; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
props=${*:-$prop}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 9; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
if [ -z "$SKIP_DEMO" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1; (cd /repo && bash $d/demo.sh >/tmp/seed/demo0.log 2>&1); echo "$id demo clean rc=$?"
fi
git -C /repo apply $d/patch.diff || exit 8
if [ -z "$SKIP_DEMO" ]; then
bash /opt/vp/build.sh >/tmp/seed/b.log 2>&1 || { echo "$id BUILD FAILS"; tail -20 /tmp/seed/b.log; }
bash /opt/vp/test.sh /tmp/seed/t.json >/dev/null 2>&1; echo "$id tests passed: $(python3 -c "import json;d=json.load(open('/tmp/seed/t.json'));print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in d.items()})")"
(cd /repo && bash $d/demo.sh >/tmp/seed/demo1.log 2>&1); echo "$id demo bug rc=$? : $(tail -1 /tmp/seed/demo1.log)"
fi
for p in $props; do
  s=$(date +%s); VERIF_SEED=1 bash /verif/run.sh $p >/tmp/seed/c.log 2>&1; rc=$?
  echo "$id check $p rc=$rc $(($(date +%s)-s))s: $(grep -v '^vsim:\|^simfs:' /tmp/seed/c.log | head -2 | cut -c1-220 | tr '\n' ' ')"
done
