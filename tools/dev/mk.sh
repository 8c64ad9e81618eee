#!/bin/bash
# mk.sh ID : /tmp/sl/in/ID/{edit.py,demo.rs,meta.json} -> /verif/seeded/ID, after confirming it
set -u
id=$1; I=/tmp/sl/in/$id; O=/verif/seeded/$id
cd /tmp/sl/repo && git checkout -q -- . && git clean -fdq -e target
python3 $I/edit.py || { echo "$id EDIT FAILED"; exit 1; }
git diff > /tmp/sl/p.diff
[ -s /tmp/sl/p.diff ] || { echo "$id EMPTY"; exit 1; }
. /opt/vp/cfg/env.sh; export CARGO_TARGET_DIR=/tmp/sl/repo/target
mkdir -p $O; cp /tmp/sl/p.diff $O/patch.diff; cp $I/demo.rs $I/meta.json $O/; cp /tmp/sl/demo.sh $O/demo.sh; chmod +x $O/demo.sh; cp /tmp/sl/Cargo.lock.txt $O/
[ -f $I/demo.sh ] && cp $I/demo.sh $O/
t=$(cargo test --release --offline -- --include-ignored 2>&1 | grep -E "^test result|FAILED|^error|failed" | head -5)
echo "$id tests: $t"
bash $O/demo.sh > /tmp/sl/demo.out 2>&1; a=$?
cd /repo && bash $O/demo.sh > /tmp/sl/demo0.out 2>&1; b=$?
echo "$id demo patched=$a clean=$b"; tail -2 /tmp/sl/demo.out
