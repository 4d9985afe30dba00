#!/usr/bin/env python3
"""replay.py <replay file written by check.py>: runs the counterexample natively against /repo (dev and release)."""
import json, os, shutil, sys, tempfile
import check

r = json.load(open(sys.argv[1]))
work = tempfile.mkdtemp(prefix="replay-")
try:
    crate = os.path.join(work, "crate")
    shutil.copytree(check.HARNESS, crate, ignore=shutil.ignore_patterns("target"))
    shutil.copy("/repo/Cargo.lock", os.path.join(crate, "Cargo.lock"))
    mod, name = r["harness"].split("::")
    rp = check.Replay(crate, r["feature"], mod)
    for profile in ("dev", "release"):
        how, out = rp.run(name, bytes.fromhex(r["input_hex"]), profile)
        print("%s: %s" % (profile, how))
        print("\n".join(l for l in out.split("\n") if "panicked" in l or "assert" in l or "verif:" in l))
finally:
    shutil.rmtree(work)
