# tryseed.sh SEED PROP...: apply committed patch to /repo, run checks, undo
id=$1; shift
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
cd /verif; for p in $*; do timeout 900 python3 check.py $p > /tmp/sl/o 2>&1; rc=$?; echo "$id $p rc=$rc $(grep -c VIOLATION /tmp/sl/o) $(grep -E 'ERROR|not allowed' /tmp/sl/o | head -1 | cut -c1-200) $(tail -1 /tmp/sl/o | cut -c1-40)" ; done
git -C /repo checkout -q -- .
