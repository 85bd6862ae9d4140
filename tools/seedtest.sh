#!/bin/bash
# seedtest.sh ID...: does each planted bug build, pass the stable tests, fail its demo - and which checks see it?
# (works in a scratch copy of /repo for build/test/demo; applies to /repo only while the check runs when CHECK=1)
set -u
S=/tmp/seedwork
for id in "$@"; do
  d=/verif/seeded/$id
  rm -rf $S; cp -a /repo $S
  ( cd $S && git apply $d/patch.diff ) || { echo "$id: patch does not apply"; continue; }
  cd $S
  export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
  CARGO_TARGET_DIR=$S/target cargo test --offline --workspace --no-fail-fast > /tmp/seed.$id.log 2>&1
  p=$(grep -c '\.\.\. ok$' /tmp/seed.$id.log); f=$(grep -c '\.\.\. FAILED$' /tmp/seed.$id.log)
  ( cd /repo && bash $d/demo.sh > /tmp/seed.$id.clean 2>&1 ); c=$?
  ( cd $S && bash $d/demo.sh > /tmp/seed.$id.bug 2>&1 ); b=$?
  echo "$id: tests $p ok $f failed; demo clean=$c bug=$b"
  cd /; rm -rf $S
  if [ "${CHECK:-}" = 1 ]; then
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C /repo apply $d/patch.diff
    ( cd /verif && timeout 900 python3 check.py $prop quick | tail -3 ); echo "  exit $?"
    git -C /repo checkout -- .
  fi
done
