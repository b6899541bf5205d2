#!/bin/bash
# seed.sh ID [check]: confirm a planted bug in a scratch copy; with 'check' run the property's check against it in /repo.
id=$1; d=/verif/seeded/$id
[ -f $d/demo.rs ] && cp /verif/tools/demo.sh $d/demo.sh
if [ "$2" != only ]; then
W=/tmp/seedwt
[ -d $W ] || cp -a /repo $W
git -C $W fetch -q /repo HEAD && git -C $W checkout -qf FETCH_HEAD && git -C $W checkout -q -- . 
(cd $W && bash $d/demo.sh >/tmp/seed.clean 2>&1); echo "clean demo rc=$?"
git -C $W apply $d/patch.diff || exit 1
(cd $W && bash $d/demo.sh >/tmp/seed.bug 2>&1); echo "bug demo rc=$?"; tail -3 /tmp/seed.bug
(cd $W && unset RUSTFLAGS; CARGO_TARGET_DIR=$W/target cargo test --workspace --features serde,log --no-fail-fast --offline -- --test-threads 8 >/tmp/seed.test 2>&1)
grep -E "^test .*FAILED|^error" /tmp/seed.test | sort | uniq | head
grep -c "^test .* ok$" /tmp/seed.test
git -C $W checkout -q -- .
fi
if [ -n "$2" ]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || exit 1
  (cd /verif && ./check.sh $p > /tmp/seed.check 2>&1); echo "check $p rc=$?"; grep -A1 VIOLATION /tmp/seed.check | head -4
  git -C /repo checkout -q -- .
fi
