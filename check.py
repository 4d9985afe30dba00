#!/usr/bin/env python3
"""Decides one property with Kani/CBMC: check.py <property> [--tier quick|thorough] [--keep]

Exit 0: every harness of the property verified (within its bounds).
Exit 1: a counterexample was found AND reproduced against the real code; prints VIOLATION.
Other:  the check could not decide (time out, a counterexample which does not reproduce, build failure).
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
WORK = os.path.join(ROOT, ".work")
REPLAYS = os.path.join(ROOT, "replays")

# Memory safety of the three unsafe blocks of the repository is not what is decided here.
KANI_FLAGS = ["--no-memory-safety-checks", "--no-assertion-reach-checks", "-Z", "unstable-options"]
LIMITS = {  # seconds: per harness, whole check
    "quick": (400, 840),
    "thorough": (6000, 36000),
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env(target):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("RUSTFLAGS", None)
    return e


def load_props():
    with open(os.path.join(ROOT, "checks.json")) as f:
        return json.load(f)


def harness_texts(mod):
    """name -> (unwind, bytes, bound) as written in the source of the module."""
    out = {}
    for path in [os.path.join(HARNESS, "src", mod + ".rs")]:
        src = open(path).read()
        for m in re.finditer(r'harness!\(\s*((?:#\[[^\]]*\]\s*)*)(\w+)\s*,\s*bytes\s*=\s*([^,]+),\s*bound\s*=\s*"((?:[^"\\]|\\.)*)"', src):
            attrs, name, nbytes, bound = m.groups()
            u = re.search(r"kani::unwind\((\d+)\)", attrs)
            stubs = re.findall(r"kani::stub\(([^)]*)\)", attrs)
            out[name] = {"unwind": int(u.group(1)) if u else None, "bytes": nbytes.strip(), "bound": bound, "stubs": stubs}
    return out


class Kani:
    def __init__(self, crate, feature, mod, deadline, extra, cbmc_args=()):
        self.crate, self.feature, self.mod, self.deadline, self.extra = crate, feature, mod, deadline, extra
        self.cbmc_args = list(cbmc_args)
        self.target = os.path.join(os.path.dirname(crate), "kani")

    def run(self, names, jobs, harness_timeout, unwind=None, playback=False):
        """-> (stdout, json or None)"""
        out_json = os.path.join(os.path.dirname(self.crate), "out-%d.json" % time.time_ns())
        cmd = ["cargo", "kani", "--features", self.feature, "--output-format=terse"] + KANI_FLAGS + self.extra
        for n in names:
            cmd += ["--harness", "%s::%s" % (self.mod, n)]
        cmd += ["--exact", "--harness-timeout", "%ds" % max(5, harness_timeout)]
        if unwind:
            cmd += ["--unwind", str(unwind)]
        if playback:
            cmd += ["-Z", "concrete-playback", "--concrete-playback=print"]
        else:
            cmd += ["--export-json", out_json]
            if jobs > 1:
                cmd += ["-j", str(jobs)]
        if self.cbmc_args:
            cmd += ["--cbmc-args"] + self.cbmc_args
        left = max(10, self.deadline - time.time())
        try:
            r = subprocess.run(cmd, cwd=self.crate, env=env(self.target), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace", timeout=left)
            text, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as e:
            text, rc = (e.stdout or b"").decode("utf-8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), -1
            subprocess.run(["pkill", "-f", self.target])
        data = None
        if os.path.exists(out_json):
            try:
                data = json.load(open(out_json))
            except ValueError:
                data = None
        return text, data, rc


UNWIND = "unwinding assertion"


def classify(res):
    """A result entry of Kani's JSON -> (state, failing checks, covers)"""
    fails = [c for c in res.get("checks", []) if c.get("status") in ("Failure", "Failed", "FAILURE")]
    covers = [c for c in res.get("checks", []) if c.get("category") == "cover"]
    if res.get("status") == "Success":
        bad = [c for c in covers if c.get("status") not in ("Satisfied", "SATISFIED")]
        return ("vacuous" if bad else "ok"), bad, covers
    real = [c for c in fails if not c.get("description", "").startswith(UNWIND) and c.get("category") != "unwind"]
    if real:
        return "fail", real, covers
    if fails:
        return "unwind", fails, covers
    return "unknown", [], covers


def parse_playback(text):
    """-> list of byte strings, one per counterexample Kani printed"""
    out = []
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", text, re.S):
        head = text[:m.start()].rsplit("/// Check for", 1)
        kind = head[1].split("\n", 1)[0] if len(head) > 1 else ""
        vals = []
        for line in m.group(1).split("\n"):
            line = line.strip()
            if line.startswith("vec![") and not line.startswith("//"):
                inner = line[5:line.index("]")]
                vals += [int(x) for x in inner.split(",") if x.strip()]
        if "`cover`" in kind:
            continue
        out.append(bytes(vals))
    return out


class Replay:
    """Runs a harness natively, without stubs, on concrete bytes."""

    def __init__(self, crate, feature, mod):
        self.crate, self.feature, self.mod = crate, feature, mod
        self.target = os.path.join(os.path.dirname(crate), "native")

    def run(self, name, data, profile):
        path = os.path.join(os.path.dirname(self.crate), "replay.bin")
        with open(path, "wb") as f:
            f.write(data)
        e = env(self.target)
        e["VERIF_REPLAY"] = path
        cmd = ["cargo", "test", "--offline", "--lib", "--features", self.feature] + (["--release"] if profile == "release" else [])
        cmd += ["--", "--exact", "%s::%s" % (self.mod, name), "--nocapture", "--test-threads=1"]
        try:
            r = subprocess.run(cmd, cwd=self.crate, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=280)
        except subprocess.TimeoutExpired:
            return "timeout", ""
        t = r.stdout
        if "REPLAY-SIZE" in t:
            return "size", t
        if "REPLAY-ASSUMPTION-NOT-MET" in t:
            return "assumption", t
        if re.search(r"test result: FAILED", t) or "panicked at" in t:
            return "fails", t
        if re.search(r"test result: ok. 1 passed", t):
            return "passes", t
        return "error", t


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true", help="check that the tools are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only", default="")
    a = ap.parse_args()
    if a.setup:
        os.makedirs(WORK, exist_ok=True)
        return subprocess.run(["cargo", "kani", "--version"], cwd=HARNESS).returncode
    tier = a.tier if a.tier in LIMITS else "quick"
    prop = a.property
    conf = load_props()[prop]
    mod = feature = prop.lower()
    t0 = time.time()
    per_harness, total = LIMITS[tier]
    deadline = t0 + total

    texts = harness_texts(mod)
    names = sorted(n for n in texts if (n.startswith("q_") or (tier == "thorough" and n.startswith("t_"))) and a.only in n)
    order = conf.get("first", [])
    names.sort(key=lambda n: (order.index(n) if n in order else len(order), n))
    if not names:
        log("no harness for", prop)
        return 2

    os.makedirs(WORK, exist_ok=True)
    work = os.path.join(WORK, "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    crate = os.path.join(work, "crate")
    shutil.copytree(HARNESS, crate, ignore=shutil.ignore_patterns("target"))
    if os.path.exists("/repo/Cargo.lock"):
        shutil.copy("/repo/Cargo.lock", os.path.join(crate, "Cargo.lock"))
    try:
        return decide(prop, tier, conf, mod, feature, texts, names, crate, t0, per_harness, deadline)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, conf, mod, feature, texts, names, crate, t0, per_harness, deadline):
    kani = Kani(crate, feature, mod, deadline, conf.get("kani_flags", []), conf.get("cbmc_args", []))
    jobs = int(conf.get("jobs", 8))
    text, data, rc = kani.run(names, jobs, min(per_harness, deadline - time.time() - 30))
    if data is None and deadline - time.time() > 200:
        # some harness could not be decided at all (killed for memory, say): retry with less in parallel
        if "Checking harness" not in text:
            log(text[-6000:])
            log("the harness crate does not build against this tree")
            return 3
        log(text[-1500:])
        text, data, rc = kani.run(names, 2, min(per_harness, deadline - time.time() - 30))
    results = {}
    stats = {}
    if data:
        for r in data["verification_results"]["results"]:
            results[r["harness_id"].split("::")[-1]] = r
        for c in data.get("cbmc", []):
            stats[c["harness_id"].split("::")[-1]] = c.get("cbmc_stats") or {}
    states = {}
    for n in names:
        if n in results:
            states[n] = classify(results[n])
        else:
            states[n] = ("unknown", [], [])
    # loops which need more iterations than the harness allows: look again with more
    for n in [n for n in names if states[n][0] == "unwind"]:
        u = texts[n]["unwind"] or 10
        for factor in (2, 4):
            if deadline - time.time() < 60:
                break
            text, data, rc = kani.run([n], 1, min(per_harness, deadline - time.time() - 30), unwind=u * factor)
            if data:
                for r in data["verification_results"]["results"]:
                    if r["harness_id"].split("::")[-1] == n:
                        results[n] = r
                        states[n] = classify(r)
                for c in data.get("cbmc", []):
                    stats[n] = c.get("cbmc_stats") or stats.get(n, {})
            if states[n][0] != "unwind":
                break
    for n in names:
        log("%-28s %-8s %6.1fs" % (n, states[n][0], results.get(n, {}).get("duration_ms", 0) / 1000.0))
        for c in states[n][1]:
            log("      %s: %s [%s]" % (c.get("status"), c.get("description", "")[:160], c.get("function", "")[:80]))

    violations = []
    undecided = [n for n in names if states[n][0] not in ("ok", "fail")]
    unreproduced = []
    known = json.load(open(os.path.join(ROOT, "known-findings.json")))["findings"]
    failing = [n for n in names if states[n][0] == "fail"]
    failing.sort(key=lambda n: results[n].get("duration_ms", 0))
    rp = Replay(crate, feature, mod)
    for n in failing:
        if violations and not known:
            break
        if deadline - time.time() < 40:
            unreproduced.append(n)
            continue
        u = None
        text, _, _ = kani.run([n], 1, deadline - time.time() - 30, unwind=u, playback=True)
        vals = parse_playback(text)
        ok = False
        for v in vals[:6]:
            hx = v.hex()
            k = [f for f in known if f["property"] == prop and f["harness"] == n and f["input"] == hx]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]), flush=True)
                ok = True
                continue
            how, out = rp.run(n, v, "dev")
            if how != "fails":
                log("counterexample of %s does not reproduce (%s): %s" % (n, how, hx))
                log(out[-1500:])
                continue
            rel, _ = rp.run(n, v, "release")
            d = os.path.join(REPLAYS, prop)
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (n, hashlib.sha1(v).hexdigest()[:8]))
            with open(path, "w") as f:
                json.dump({"property": prop, "harness": "%s::%s" % (mod, n), "feature": feature, "input_hex": hx,
                           "bound": texts[n]["bound"],
                           "failed_checks": [c.get("description") for c in states[n][1]],
                           "native_dev": how, "native_release": rel,
                           "panic": [l for l in out.split("\n") if "panicked at" in l or "assertion" in l][:4],
                           "how_to_replay": "python3 %s/replay.py %s" % (ROOT, path)}, f, indent=1)
            violations.append((n, path, rel))
            ok = True
            break
        if not ok:
            unreproduced.append(n)

    write_evidence(prop, tier, conf, mod, texts, names, states, results, stats, violations, undecided, unreproduced, t0)
    for n, path, rel in violations:
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    if violations:
        return 1
    if unreproduced:
        log("a counterexample did not reproduce against the real code:", unreproduced)
        return 4
    if undecided:
        log("not decided:", [(n, states[n][0]) for n in undecided])
        return 2
    return 0


def write_evidence(prop, tier, conf, mod, texts, names, states, results, stats, violations, undecided, unreproduced, t0):
    funcs, covers_hit, covers_all, checks = set(), 0, 0, 0
    per = []
    vccs = solved = steps = 0
    solver_s = symex_s = 0.0
    for n in names:
        r, s = results.get(n, {}), stats.get(n, {})
        for c in r.get("checks", []):
            f = c.get("function", "")
            if mod + "::" in f or "validators" in f:
                funcs.add(f)
            checks += c.get("category") != "cover"
        cov = states[n][2]
        covers_all += len(cov)
        covers_hit += sum(c.get("status") in ("Satisfied", "SATISFIED") for c in cov)
        vccs += s.get("vccs_generated") or 0
        solved += s.get("vccs_remaining") or 0
        steps += s.get("size_program_expression") or 0
        solver_s += s.get("runtime_decision_procedure_s") or 0
        symex_s += s.get("runtime_symex_s") or 0
        per.append({"harness": n, "verdict": states[n][0], "bound": texts[n]["bound"], "unwind": texts[n]["unwind"],
                    "symbolic_bytes": texts[n]["bytes"], "stubs": texts[n]["stubs"],
                    "assertions_checked": sum(c.get("category") != "cover" for c in r.get("checks", [])),
                    "reachability_witnesses": [c.get("description") for c in cov],
                    "vccs_sent_to_solver": s.get("vccs_remaining"), "solver_s": s.get("runtime_decision_procedure_s"),
                    "symex_s": s.get("runtime_symex_s")})
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": conf["level"],
        "coverage": {
            "explanation": "Bounded symbolic execution of the code the derive macro generates from /repo's working tree "
                           "(Kani -> CBMC -> SAT): each harness makes its whole input symbolic within the stated bound and the "
                           "solver decides every assertion for all of these inputs at once; unwinding assertions are on. "
                           "Inputs beyond the bounds are outside the claim.",
            "harnesses": len(names), "verified": sum(states[n][0] == "ok" for n in names),
            "assertions_checked": checks, "queries": {"vccs_generated": vccs, "vccs_sent_to_solver": solved,
                                                       "solver_s": round(solver_s, 2), "symbolic_execution_s": round(symex_s, 2),
                                                       "program_steps": steps, "solver": "CBMC 6.11 / CaDiCaL"},
            "reachability_witnesses_found": covers_hit, "reachability_witnesses_asked": covers_all,
            "functions_encoded": sorted(funcs)[:400], "functions_encoded_count": len(funcs),
            "per_harness": per,
            "undecided": undecided, "unreproduced": unreproduced,
            "samples": [{"harness": n, "bound": texts[n]["bound"]} for n in names[:3]],
        },
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
