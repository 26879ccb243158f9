#!/usr/bin/env python3
"""Confirm planted bugs and write them to /verif/seeded/<id>/.

usage: plant.py BUGS.py [ID ...]
BUGS.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)],
demo (Rust source of main.rs), needs, breaks.
Each bug is confirmed in a scratch copy of /repo: it compiles, the stable tests
pass, the demo fails with it and passes without it.
"""
import json, os, shutil, subprocess, sys, tempfile, runpy

HELP = '''#!/bin/bash
# Exit 0 when the property's demonstration passes, nonzero when it fails.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
venial = { path = "$repo" }
proc-macro2 = { version = "1", features = ["span-locations"] }
quote = "1"
TOML
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cd "$w" || exit 3
CARGO_TARGET_DIR="$w/target" timeout 200 cargo build --offline -q 2> "$w/build.log"
rc=$?
if [ $rc -ne 0 ]; then cat "$w/build.log"; exit 3; fi
timeout 60 "$w/target/debug/demo"
'''

def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    base = tempfile.mkdtemp(prefix="plant")
    w = base + "/repo"
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    bad = []
    try:
        for b in bugs:
            if only and b["id"] not in only:
                continue
            sh(["git", "checkout", "-q", "--", "."], w)
            d = f"/verif/seeded/{b['id']}"
            stage = base + "/" + b["id"]
            os.makedirs(stage)
            open(stage + "/main.rs", "w").write(b["demo"])
            open(stage + "/demo.sh", "w").write(HELP)
            r0 = sh(["bash", stage + "/demo.sh"], w)
            ok = True
            for f, old, new in b["edits"]:
                s = open(f"{w}/{f}").read()
                if s.count(old) != 1:
                    print(b["id"], "EDIT: old text found", s.count(old), "times:", old[:60]); ok = False; break
                open(f"{w}/{f}", "w").write(s.replace(old, new))
            if not ok:
                bad.append(b["id"]); continue
            diff = sh(["git", "diff"], w).stdout
            t = sh(["cargo", "test", "--offline", "-q"], w)
            r1 = sh(["bash", stage + "/demo.sh"], w)
            tests_ok = t.returncode == 0
            if r0.returncode != 0 or r1.returncode == 0 or r1.returncode == 3 or not tests_ok:
                print(b["id"], "REJECTED clean", r0.returncode, "patched", r1.returncode, "tests", tests_ok)
                print((r0.stdout if r0.returncode else "")[-1500:], (r1.stdout if r1.returncode in (0, 3) else "")[-1500:], ("" if tests_ok else t.stdout[-2500:]))
                bad.append(b["id"]); continue
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for n in ("main.rs", "demo.sh"):
                shutil.copy(stage + "/" + n, d)
            open(d + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            print(b["id"], "ok")
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print("rejected:", bad)

main()
