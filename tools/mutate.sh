#!/bin/bash
# mutate.sh DIR LANE LANES: for every DIR/<n>.diff of this lane: build and test a
# scratch copy with it; if both pass, run the checks (a part of their cases) until
# one reports a violation. Appends to DIR/result.LANE.
dir="$1" lane="$2" lanes="$3" here="$(cd "$(dirname "$0")/.." && pwd)"
w="/tmp/mut/L$lane"; mkdir -p "$w/repo" "$w/verif/harness"
(cd "$here" && cp -r --parents harness/src harness/build.rs harness/Cargo.toml harness/Cargo.lock check.sh tools/rustc-cov.sh known-findings.txt "$w/verif")
sed -i "s|\"/repo\"|\"$w/repo\"|" "$w/verif/harness/Cargo.toml"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never VERIF_DIR="$w/verif" LAV_SCALE="${LAV_SCALE:-0.15}" CARGO_BUILD_JOBS=2
order="C01 C03 C17 C18 C04 C06 C08 C09 C12 C05 C07 C26 C24 C22 C23 C13 C25 C10 C11 C02 C14 C15 C16 C20 C27 C28 C29 C30 C31 C19 C21"
i=-1
for p in "$dir"/*.diff; do
  i=$((i+1)); [ $((i % lanes)) = "$lane" ] || continue
  n="$(basename "$p" .diff)"
  grep -q "^$n " "$dir"/result.* 2>/dev/null && continue
  (cd /repo && git ls-files -z src Cargo.toml Cargo.lock README.md | xargs -0 cp --parents -pt "$w/repo")
  f="$(sed -n 's|^+++ b/||p' "$p")"
  (cd "$w/repo" && patch -sp1 <"$p") || { echo "$n noapply" >>"$dir/result.$lane"; continue; }
  touch "$w/repo/$f"
  (cd "$w/repo" && ulimit -v 6000000; CARGO_TARGET_DIR="$w/tt" timeout 120 cargo test --lib --offline -q >"$w/test.log" 2>&1)
  rc=$?
  if [ $rc != 0 ]; then
    if grep -q '^error' "$w/test.log" && ! grep -q 'test result' "$w/test.log"; then r=nobuild; else r=tests; fi
    echo "$n $r" >>"$dir/result.$lane"
  else
    (cd "$w/verif/harness" && CARGO_TARGET_DIR="$w/target" RUSTC_WRAPPER="$w/verif/tools/rustc-cov.sh" cargo build --release --offline >"$w/log" 2>&1) || { echo "$n noharness" >>"$dir/result.$lane"; cp -p "/repo/$f" "$w/repo/$f"; touch "$w/repo/$f"; continue; }
    by=""
    for id in $order; do
      (cd "$w/verif" && timeout 300 "$w/target/release/lav" run $id >"$w/out" 2>&1); rc=$?
      [ $rc = 0 ] || by="$by $id:$rc"
      [ $rc = 1 ] && break
    done
    echo "$n caught:$by" >>"$dir/result.$lane"
  fi
  cp -p "/repo/$f" "$w/repo/$f"; touch "$w/repo/$f"
done
echo "done" >>"$dir/result.$lane"
