#!/bin/bash
# trybug.sh ID [check PID...]: validate /verif/seeded/ID against /repo (tests, demo), then run the given checks on it.
# Applies the patch to /repo and always undoes it.
id=$1; shift
d=/verif/seeded/$id
[ -n "$(git -C /repo status --short)" ] && { echo "repo dirty"; exit 2; }
cd /repo
tmp=$(mktemp -d)
cp $d/* $tmp/; rm -f $tmp/patch.diff $tmp/meta.json
timeout 300 bash $tmp/demo.sh >$tmp/o1 2>&1; r1=$?
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .; rm -rf "$tmp"' EXIT
timeout 300 bash $tmp/demo.sh >$tmp/o2 2>&1; r2=$?
echo "$id demo clean=$r1 patched=$r2"
[ $r1 != 0 ] && tail -5 $tmp/o1
[ $r2 = 0 ] && tail -5 $tmp/o2
tail -2 $tmp/o2
if [ -z "$NOTEST" ]; then
  bash /opt/vp/test.sh $tmp/t.json >$tmp/t.log 2>&1; tail -1 $tmp/t.log
  grep -E "^FAILED" $tmp/t.log | head -5
fi
for p in "$@"; do
  s=$(date +%s)
  (cd /verif && VERIF_TIER=quick timeout 900 /opt/venv/bin/python run_check.py $p >$tmp/c.log 2>&1; echo "check $p rc=$? $(grep -c VIOLATION $tmp/c.log) violations in $(( $(date +%s)-s ))s")
  grep VIOLATION $tmp/c.log | head -2
done
