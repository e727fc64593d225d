#!/bin/bash
# try_patch.sh WORKDIR PATCH [ID...]   run the checks against a patched scratch copy of /repo
# prints "<name>: caught by ...". WORKDIR is reused between calls (compiled dependencies).
w="$1" patch="$2"; shift 2
here="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$w/repo" "$w/verif"
rsync -a --delete --exclude target --exclude .git /repo/ "$w/repo/" 2>/dev/null || { rm -rf "$w/repo"; mkdir -p "$w/repo"; (cd /repo && git ls-files -z | xargs -0 cp --parents -t "$w/repo"); }
mkdir -p "$w/verif/harness"
(cd "$here" && cp -r --parents harness/src harness/build.rs harness/Cargo.toml harness/Cargo.lock check.sh tools/rustc-cov.sh known-findings.txt "$w/verif" 2>/dev/null)
sed -i "s|\"/repo\"|\"$w/repo\"|" "$w/verif/harness/Cargo.toml"
if [ "$patch" != none ]; then
  (cd "$w/repo" && git apply --unsafe-paths $APPLY_OPTS "$patch") || { echo "$patch: does not apply"; exit 2; }
fi
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$w/target" VERIF_DIR="$w/verif" RUSTC_WRAPPER="$w/verif/tools/rustc-cov.sh"
(cd "$w/verif/harness" && cargo build --release --offline >"$w/log" 2>&1) || { tail -20 "$w/log"; echo "$patch: does not build"; exit 2; }
lav="$CARGO_TARGET_DIR/release/lav"
[ $# = 0 ] && set -- $("$lav" list)
out=""
for id in "$@"; do
  (cd "$w/verif" && timeout 900 "$lav" run "$id" >"$w/out.$id" 2>&1); rc=$?
  case $rc in 0) ;; 1) out="$out $id" ;; *) out="$out $id(rc=$rc)" ;; esac
done
echo "$patch: caught by$out"
