#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ for every entry of SPEC.py's BUGS
(id, property, edits [(file, old, new)], needs, breaks, main; perhaps deps, demo)."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf -- "$w"' EXIT
mkdir "$w/src" && cp "$here/main.rs" "$w/src/" || exit 3
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
cubing_core = { path = "$repo/cubing_core" }
serde_json = "1"
[workspace]
T
cp "$repo/Cargo.lock" "$w/" 2>/dev/null
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
cd "$w" && cargo build --offline -q && timeout 60 "$w/target/debug/demo"
"""
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    d = os.path.join(HERE, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % t, shell=True, check=True)
        subprocess.run(["git", "init", "-q", t], check=True)
        g = ["git", "-C", t, "-c", "user.name=x", "-c", "user.email=x@x"]
        subprocess.run(g + ["add", "-A"], check=True)
        subprocess.run(g + ["commit", "-qm", "x"], check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(t, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(g + ["diff"], check=True, capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if "main" in b:
        open(os.path.join(d, "main.rs"), "w").write(b["main"].lstrip("\n"))
    demo = b.get("demo") or DEMO.replace("serde_json", b.get("deps", "") + "serde_json")
    open(os.path.join(d, "demo.sh"), "w").write(demo.lstrip("\n"))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(b["id"])
