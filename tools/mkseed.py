#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: make and confirm planted bugs.
SPEC.py defines S = [dict(id=, property=, edits=[(file, old, new)...], needs=, breaks=, demo=<body of main>)].
A seed is kept when the patched copy builds, passes the existing tests, and its demo
passes on the unchanged copy and fails on the patched one."""
import json, os, runpy, shutil, subprocess, sys, re
W = "/tmp/sd"
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: broken. Run with the repository as working directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat >"$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
latex-ast = { path = "$repo" }
[workspace]
T
cd "$t" || exit 3
unset CARGO_RESOLVER_LOCKFILE_PATH
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --quiet --offline 2>"$t/err"
rc=$?
[ $rc = 0 ] || tail -5 "$t/err" >&2
exit $rc
'''
PRE = '''#![allow(unused_imports)]
use latex_ast::traits::{Lines, Validate};
use latex_ast::{ast1, ast2, ast3, Error, ErrorType, InternalError};

fn d1(s: &str) -> Result<ast1::Document, Error> {
    s.parse()
}
fn d2(s: &str) -> Result<ast2::Document, Error> {
    s.parse()
}
fn d3(s: &str) -> Result<ast3::Document, Error> {
    s.parse()
}

fn main() {
    let _ = (d1("a"), d2("a"), d3("a"));
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=W + "/target", CARGO_TERM_COLOR="never")
def fresh():
    shutil.rmtree(W + "/repo", ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", W + "/repo"])
def main():
    specs = runpy.run_path(sys.argv[1])["S"]
    only = sys.argv[2:]
    fixlines = {}
    for s in specs:
        if only and s["id"] not in only: continue
        d = os.path.abspath(os.path.join(OUT, s["id"]))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        body = "\n".join("    " + l if l else "" for l in s["demo"].strip("\n").split("\n"))
        open(d + "/main.rs", "w").write(PRE + body + "\n}\n" + s.get("items", ""))
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        fresh()
        ok = sh(f"bash {d}/demo.sh", W + "/repo", env=env)
        bad = None
        if ok.returncode: bad = "demo fails on the unchanged tree: " + ok.stderr[-600:]
        if not bad:
            for f, old, new in s["edits"]:
                p = f"{W}/repo/{f}"
                t = open(p).read()
                if t.count(old) != 1: bad = f"{f}: {t.count(old)} matches of {old!r}"; break
                open(p, "w").write(t.replace(old, new))
        if not bad:
            open(d + "/patch.diff", "w").write(sh("git diff -- src", W + "/repo").stdout)
            # removed lines must be of the original repository
            base = sh("git rev-list --max-parents=0 HEAD", W + "/repo").stdout.strip()
            removed = [(m.group(1)) for m in re.finditer(r"^-(?!--)(.*)$", open(d + "/patch.diff").read(), re.M)]
            for f in {e[0] for e in s["edits"]}:
                pass
            orig = sh(f"git show {base}:" + s["edits"][0][0], W + "/repo").stdout.split("\n")
            if removed and not any(r in orig for r in removed if r.strip()): bad = f"touches only lines of fixes: {removed}"
            if not removed: bad = "removes no line"
        if not bad:
            t = sh("cargo test --offline 2>&1", W + "/repo", env=env)
            m = re.search(r"test result: \w+\. (\d+) passed; (\d+) failed", t.stdout)
            if not m: bad = "does not build: " + t.stdout[-800:]
            elif (m.group(1), m.group(2)) != ("21", "0"): bad = f"tests: {m.group(0)}"
        if not bad:
            sh("git checkout -q Cargo.lock", W + "/repo")
            r = sh(f"bash {d}/demo.sh", W + "/repo", env=env)
            if r.returncode == 0: bad = "demo passes with the patch"
            else: why = r.stderr.strip().split("\n")
        if bad:
            print("REJECTED", s["id"], bad); shutil.rmtree(d); continue
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("kept", s["id"], "|", " / ".join(why[:3])[:200])
main()
