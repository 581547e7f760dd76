#!/bin/bash
# seedcheck.sh ID...: in a scratch copy: does the patch apply, build and pass the tests, is the demo 0 without
# and nonzero with it, and does the check of the property catch it. Scratch: /tmp/sv (kept for speed; remove it)
V=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/sv
if [ ! -d $S/repo ]; then mkdir -p $S; cp -a /repo $S/repo; fi
export HOME=/root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_TERM_COLOR=never RUST_BACKTRACE=0
for id in "$@"; do
  d=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  rm -rf $S/h; mkdir -p $S/h $S/out/evidence $S/out/replays; cp -r $V/harness $S/h/harness; sed -i "s#path = \"/repo\"#path = \"$S/repo\"#" $S/h/harness/Cargo.toml
  for f in KNOWN_FINDINGS properties.jsonl; do [ -f $V/$f ] && cp $V/$f $S/out/; done
  (cd $S/repo && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq src)
  cd $S/repo
  DEMO_TARGET=$S/dt bash $d/demo.sh > $S/demo0 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  find src -newer $S/demo0 -name '*.rs' | xargs -r touch
  T=$(CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 1 2>&1 | grep -E '^test result|^error' )
  pass=$(echo "$T" | grep -oE '[0-9]+ passed' | awk '{s+=$1} END {print s}')
  DEMO_TARGET=$S/dt bash $d/demo.sh > $S/demo1 2>&1; r1=$?
  (cd $S/h/harness && CARGO_TARGET_DIR=$S/ht cargo build --offline --locked -q 2> $S/hbuild) || { echo "$id: harness does not build"; tail -5 $S/hbuild; }
  t0=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick VH_DIR=$S/out timeout 900 $S/ht/debug/vharness $p > $S/check 2>&1; rc=$?
  c=MISSED; [ $rc = 1 ] && grep -q "VIOLATION property=$p" $S/check && c=CAUGHT
  echo "$id $p: demo $r0/$r1 ($(tail -1 $S/demo1 | cut -c1-150)), tests $pass, check $c rc=$rc $(( $(date +%s) - t0 )) s: $(grep -vE '^KNOWN' $S/check | head -2 | cut -c1-220 | tr '\n' ' ')"
  git checkout -q -- .
done
