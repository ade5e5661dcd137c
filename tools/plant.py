#!/usr/bin/env python3
"""plant.py BUGS.py [ID...]: make /verif/seeded/<id>/ from a list of planted bugs.

Each entry of BUGS: id, property, needs, what_it_breaks, edits [(file, old, new)], groups, demo.
A bug is kept only if it builds, passes the tests, and its demo tells it from /repo's HEAD. Works in
scratch copies only."""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Exit 0: the property holds for this input; 1: it does not. Run in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" && cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
auto-palette = { path = "$repo" }
num-traits = "0.2"
rand = "0.8"
[profile.release]
debug-assertions = true
[workspace]
EOF
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
export RUSTFLAGS='@FLAGS@'
cd "$work" || exit 2
cargo build --release --offline -q 2>"$work/log" || { tail -40 "$work/log" >&2; exit 3; }
timeout 200 "$work/target/release/demo"
code=$?
[ $code = 0 ] && { echo "holds"; exit 0; }
echo "broken (exit $code)"
exit 1
'''
def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    work = "/tmp/sd"
    wt = work + "/wt"
    os.makedirs(work, exist_ok=True)
    if not os.path.isdir(wt):
        shutil.copytree("/repo", wt, symlinks=True)
    sh("git fetch -q /repo && git checkout -q -f FETCH_HEAD", wt)
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        sh("git checkout -q -f HEAD -- . ", wt)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(wt, f); s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT matches", s.count(old), "times in", f, repr(old[:60])); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        r = sh("cargo fmt --all", wt)
        diff = sh("git diff", wt).stdout
        r = sh("RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo test --offline 2>&1 | grep -E '^error|test result|FAILED|failed' ", wt)
        if "error" in r.stdout or "FAILED" in r.stdout or r.stdout.count("test result: ok") < 3:
            print(b["id"], "TESTS:", r.stdout[-1500:])
            e = sh("cargo build --offline 2>&1 | grep -A8 '^error'", wt); print(e.stdout[:2000]); continue
        d = os.path.join(ROOT, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        flags = ""
        if b.get("groups"):
            flags = "--cfg verif_hooks " + " ".join(f'--cfg verif_hooks="{g}"' for g in b["groups"].split())
        open(d + "/demo.sh", "w").write(DEMO.replace("@FLAGS@", flags)); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(b["demo"])
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what_it_breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        good = sh(f"bash {d}/demo.sh", "/repo"); bad = sh(f"bash {d}/demo.sh", wt)
        verdict = "KEPT" if good.returncode == 0 and bad.returncode == 1 else "REJECTED"
        print(b["id"], b["property"], verdict, "clean:", good.returncode, (good.stdout + good.stderr)[-300:].strip() if good.returncode else "",
              "patched:", bad.returncode, (bad.stdout + bad.stderr)[-300:].strip(), flush=True)
        if verdict == "REJECTED":
            os.makedirs("/tmp/sd/rejected", exist_ok=True)
            shutil.rmtree("/tmp/sd/rejected/" + b["id"], ignore_errors=True)
            shutil.move(d, "/tmp/sd/rejected/" + b["id"])
    sh("git checkout -q -f HEAD -- . ", wt)
main()
