#!/usr/bin/env python3
"""Writes one planted bug: seed.py <definition.py> (development tool; no check uses it).
A definition sets: id, property, needs, breaks, features, edits = [(file, old, new)], main (Rust source of the demonstration)."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory: 0 when the demonstrated behaviour is right.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/main.rs" "$w/src/main.rs" || exit 3
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
validators = {{ path = "$repo/validators", default-features = false, features = [{features}] }}
{deps}
E
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo run --offline -q
'''
def plant(d):
    out = os.path.join(ROOT, d["id"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    w = tempfile.mkdtemp(prefix="seed")
    subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
    for f, old, new in d["edits"]:
        p = os.path.join(w, "r", f)
        s = open(p).read()
        assert old in s, (d["id"], f, old)
        if not d.get("all"):
            assert s.count(old) == 1, (d["id"], f, s.count(old))
        s = s.replace(old, new)
        open(p, "w").write(s)
    diff = subprocess.run(["git", "diff"], cwd=w + "/r", stdout=subprocess.PIPE, text=True).stdout
    open(out + "/patch.diff", "w").write(diff)
    shutil.rmtree(w)
    feats = ", ".join('"%s"' % f for f in ["derive", "std"] + d["features"])
    open(out + "/demo.sh", "w").write(DEMO.format(features=feats, deps=d.get("deps", "")))
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/main.rs", "w").write(d["main"].lstrip())
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
if __name__ == "__main__":
    g = {}
    exec(open(sys.argv[1]).read(), g)
    for d in g["SEEDS"]:
        if len(sys.argv) < 3 or d["id"] in sys.argv[2:]:
            plant(d)
            print(d["id"])
