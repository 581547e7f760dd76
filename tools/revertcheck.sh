#!/bin/bash
# revertcheck.sh [COMMIT...]: reverts each fix of KNOWN_FINDINGS in a scratch copy (/tmp/rv) and runs its check
V=$(cd "$(dirname "$0")/.." && pwd); S=/tmp/rv
export HOME=/root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_TERM_COLOR=never RUST_BACKTRACE=0
rm -rf $S/repo $S/h; mkdir -p $S/h $S/out/evidence $S/out/replays
git clone -q /repo $S/repo; cp -r $V/harness $S/h/harness; sed -i "s#path = \"/repo\"#path = \"$S/repo\"#" $S/h/harness/Cargo.toml
cp $V/properties.jsonl $S/out/
grep '^fixed:' $V/KNOWN_FINDINGS | while read -r _ p c what; do
  p=${p#property=}
  if [ $# -gt 0 ] && [[ " $* " != *" $c "* ]]; then continue; fi
  cd $S/repo; git checkout -q -f origin/HEAD 2>/dev/null || git checkout -q -f HEAD
  if ! git revert -n $c > /dev/null 2>&1; then git revert --quit; git reset -q --hard; echo "| $c | $p | cannot be reverted alone |"; continue; fi
  find src -name '*.rs' -exec touch {} +
  if ! (cd $S/h/harness && CARGO_TARGET_DIR=$S/t cargo build --offline --locked -q 2> $S/hb); then r="does not build"; else
    VERIF_SEED=1 VERIF_TIER=quick VH_DIR=$S/out timeout 900 $S/t/debug/vharness $p > $S/check 2>&1; rc=$?
    r="not reported (rc $rc)"; [ $rc = 1 ] && grep -q "VIOLATION property=$p" $S/check && r="reported: $(grep -m1 '^scenario' $S/check | cut -c1-160 | tr '|' '/')"; fi
  git revert --quit 2>/dev/null; git reset -q --hard
  echo "| $c | $p | $r |"
done
