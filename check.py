#!/usr/bin/env python3
"""Solver-based check of one property.   check.py <property> <quick|thorough>

1. builds the symbolic executor (/verif/symx) if needed,
2. compiles the harness module of the property together with /repo's current
   source to LLVM IR, and to an ordinary executable,
3. executes every harness entry symbolically (symx + z3) over all values of its
   symbolic inputs within the stated bounds,
4. replays every explored path's witness on the native executable and compares
   the observations (validates the encoding),
5. replays every counterexample natively (debug and release arithmetic) before
   reporting it.

exit 0: held on everything within the bounds; exit 1 + VIOLATION line: broken;
exit 3: the check itself failed (never a verdict).
"""
import hashlib, json, os, re, subprocess, sys, time, threading, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, "harness")
SYMX = os.path.join(V, "symx/target/release/symx")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
BUDGET = {"quick": 780, "thorough": 3000}


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(3)


def sh(cmd, cwd, what, timeout=1500):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        die(f"{what} failed\n" + r.stdout[-4000:])
    return r.stdout


def build_symx():
    sh(["cargo", "build", "--release", "--offline", "-q"], os.path.join(V, "symx"), "symx build")


def fresh(tgt):
    """Cargo decides by file times; force a rebuild whenever the content changed."""
    h = hashlib.sha256()
    for root in ("/repo/src", "/repo/Cargo.toml", os.path.join(H, "src"), os.path.join(H, "Cargo.toml"), os.path.join(H, "Cargo.lock")):
        files = [root] if os.path.isfile(root) else sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
    stamp, cur = os.path.join(H, tgt, "content.sha256"), h.hexdigest()
    if os.path.isdir(os.path.join(H, tgt)) and not (os.path.exists(stamp) and open(stamp).read() == cur):
        for prof in ([], ["--release"], ["--profile", "natrel"]):
            subprocess.run(["cargo", "clean", "--offline", "-p", "portgraph", "-p", "vharness", "--target-dir", tgt] + prof, cwd=H, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.makedirs(os.path.join(H, tgt), exist_ok=True)
    open(stamp, "w").write(cur)


def build_ir(feats, tgt="target/ir"):
    d = os.path.join(H, tgt, "release/deps")
    sh(["cargo", "rustc", "--release", "--offline", "--target-dir", tgt, "--features", feats, "--", "--emit=llvm-ir",
        "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"], H, "IR build")
    lls = [os.path.join(d, f) for f in os.listdir(d) if f.startswith("vharness-") and f.endswith(".ll")]
    if not lls:
        die("no IR emitted")
    return max(lls, key=os.path.getmtime)


def build_native(feats, profile):
    sh(["cargo", "build", "--offline", "--profile", profile, "--target-dir", "target/nat", "--features", "native," + feats], H, f"native build ({profile})")
    return os.path.join(H, "target/nat", "debug" if profile == "dev" else profile, "vharness")


def replay(exe, entry, inputs):
    try:
        r = subprocess.run([exe, "replay", entry, ",".join(map(str, inputs))], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=20)
    except subprocess.TimeoutExpired:
        return "hang", "no result after 20 s"
    m = re.search(r"outcome=(\S+) id=(\d+)", r.stdout)
    if r.returncode < 0:
        return "crash", f"signal {-r.returncode}"
    return (m.group(1) if m else "crash"), r.stdout.strip()[-1500:]


def load_known(prop):
    """`known: property=<id> entry=<harness> inputs=<a,b,c> <what fails>` lines of known-findings.txt."""
    out = []
    p = os.path.join(V, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) entry=(\S+) inputs=(\S*) (.*)", l.strip())
        if m and m.group(1) == prop:
            out.append({"entry": m.group(2), "inputs": [int(x) for x in m.group(3).split(",") if x], "what": m.group(4)})
    return out


def main():
    if len(sys.argv) != 3 or sys.argv[2] not in BUDGET:
        die("usage: check.py <property> <quick|thorough>")
    prop, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    feat = prop.lower()
    feats = feat + (",deep" if tier == "thorough" else "")
    work = os.path.join(H, "target/work", f"{prop}.{tier}")
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    fresh("target/ir")
    fresh("target/nat")
    with cf.ThreadPoolExecutor(4) as ex:
        a, b, c = ex.submit(build_symx), ex.submit(build_ir, feats), ex.submit(build_native, feats, "dev")
        a.result(); ll = b.result(); exe = c.result()
    t_build = time.time() - t0
    entries = []
    for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
        n, c, b = l.split("\t")
        entries.append((n, int(c), b))
    if not entries:
        die("no harness entries")
    known = load_known(prop)
    deadline = t0 + BUDGET[tier]
    tot = {k: 0 for k in ("paths", "expected_panics", "pruned", "forks", "queries", "sat", "unsat", "unknown", "cache_hits", "solver_s", "steps",
                          "checks_const", "checks_solver", "branches_sym", "concretizations")}
    lines, funcs, per_entry, samples, problems, viol = {}, set(), [], [], [], []
    validated = 0
    for n, covers, bounds in entries:
        left = deadline - time.time()
        if left < 5:
            problems.append(f"{n}: out of time before it ran")
            continue
        out, rec = os.path.join(work, n + ".json"), os.path.join(work, n + ".rec")
        for f in (out, rec):
            if os.path.exists(f):
                os.remove(f)
        r = subprocess.run([SYMX, "--ll", ll, "--entry", n, "--out", out, "--records", rec, "--time", f"{left:.0f}", "--threads", str(os.cpu_count() or 8),
                            "--max-viol", "6"], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(out):
            problems.append(f"{n}: executor failed: {r.stdout[-500:]}")
            continue
        j = json.load(open(out))
        for k in tot:
            tot[k] += j[k]
        for f, c in j["lines"].items():
            lines[f] = max(lines.get(f, 0), c)
        funcs.update(j["functions"])
        per_entry.append({"entry": n, "bounds": bounds, "paths": j["paths"], "queries": j["queries"], "solver_s": j["solver_s"], "wall_s": j["wall_s"], "witnesses_reached": len(j["covers"])})
        if j["errors"]:
            problems.append(f"{n}: {j['errors'][0]}")
        if j["timeout"]:
            problems.append(f"{n}: bound on time or paths reached before the space was covered")
        if j["unknown"]:
            problems.append(f"{n}: {j['unknown']} solver queries undecided")
        for v in j["violations"]:
            viol.append((n, v))
        if not j["violations"] and not j["errors"] and not j["timeout"]:
            missing = [i for i in range(covers) if str(i) not in j["covers"]]
            if missing:
                problems.append(f"{n}: vacuous: reachability witnesses {missing} not reached")
        # every explored path, replayed on the real executable
        v = subprocess.run([exe, "validate", n, rec], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        m = re.search(r"validated=(\d+) mismatches=(\d+)", v.stdout)
        if not m or v.returncode != 0:
            problems.append(f"{n}: native validation: {v.stdout[-600:]}")
        if m:
            validated += int(m.group(1))
        with open(rec) as f:
            for i, l in enumerate(f):
                if i in (0, 7) and len(samples) < 12:
                    samples.append({"entry": n, "path": l.strip()[:300]})
        if len(viol) >= 6:
            break
    # counterexamples
    confirmed, kf = [], {}
    if viol:
        rexe = build_native(feats, "natrel")
        rdir = os.path.join(V, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for n, v in viol:
            d, dm = replay(exe, n, v["inputs"])
            r, rm = replay(rexe, n, v["inputs"])
            bad = ("check", "panic", "hang", "crash")
            if d not in bad and r not in bad:
                problems.append(f"{n}: counterexample {v} does not reproduce natively ({d}/{r})")
                continue
            k = next((k for k in known if k["entry"] == n and k["inputs"] == v["inputs"]), None)
            if k:
                kf[k["what"]] = 1
                continue
            p = os.path.join(rdir, f"{prop}-{len(confirmed)}.json")
            json.dump({"property": prop, "entry": n, "inputs": v["inputs"], "kind": v["kind"], "assertion": f"harness/src/{feat}.rs or util.rs line {v['id']}",
                       "message": v["msg"], "native_dev": dm, "native_release": rm,
                       "replay": f"cd /verif/harness && cargo run --offline --features native,{feats} --target-dir target/nat -- replay {n} {','.join(map(str, v['inputs']))}"},
                      open(p, "w"), indent=1)
            confirmed.append((n, v, p, dm))
    for k in known:
        # a recorded finding: a concrete history kept in a harness of its own
        o, m = replay(exe, k["entry"], k["inputs"])
        if o in ("check", "panic", "hang", "crash"):
            kf[k["what"]] = 1
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"] + tot["expected_panics"], "transitions": tot["steps"], "traces_validated_against_impl": validated, "samples": samples,
            "counting": "states: symbolic end states (paths, each standing for every input that follows it); transitions: IR instructions executed symbolically",
            "exhaustive_within_bounds": not problems,
            "solver": {"queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"], "model_cache_hits": tot["cache_hits"], "solver_s": round(tot["solver_s"], 3)},
            "assertions_decided_by_solver": tot["checks_solver"], "assertions_decided_by_constant_folding_on_a_path": tot["checks_const"],
            "symbolic_branches": tot["branches_sym"], "forks": tot["forks"], "infeasible_or_assumed_away": tot["pruned"], "expected_panic_paths": tot["expected_panics"],
            "entries": per_entry, "functions_encoded": sorted(funcs), "repo_source_lines_executed": lines,
            "build_s": round(t_build, 1), "problems": problems,
        },
        "assumptions": [
            "LLVM IR as emitted by rustc (stable) for /repo's current tree with debug assertions and overflow checks; z3's verdicts; allocation never fails; 64-bit target",
            "bounds per entry as listed under coverage.entries; nothing is claimed outside them",
            "HashMap's random seed is fixed to one value",
        ],
        "wall_s": round(wall, 1), "violations": len(confirmed),
    }
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for w in kf:
        print(f"KNOWN-FINDING: property={prop} {w}")
    print(f"{prop} {tier}: {len(entries)} entries, {tot['paths']} paths, {tot['queries']} queries ({tot['unsat']} unsat), solver {tot['solver_s']:.1f}s, "
          f"{validated} paths replayed natively, wall {wall:.1f}s (build {t_build:.1f}s)")
    for p in problems:
        print("  problem: " + p[:1500])
    if confirmed:
        for n, v, p, dm in confirmed:
            print(f"  {n} inputs={v['inputs']} {v['kind']} line {v['id']} {v['msg'][:200]} | {dm.splitlines()[-1][:300] if dm else ''}")
        print(f"VIOLATION property={prop} replay={confirmed[0][2]}")
        sys.exit(1)
    if problems:
        die("no verdict")
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        die(repr(e))
