#!/usr/bin/env python3
"""Dev helper for planted bugs.
 seed.py make ID PROP NEEDS BREAKS MAIN.rs   take the diff of /tmp/sb (scratch copy of /repo) as a planted bug; confirm it
 seed.py try ID [CHECK..]                    apply to /repo, run the checks' quick commands, undo
"""
import json, os, shutil, subprocess, sys
V = "/verif"
DEMO = '''#!/bin/bash
# Builds main.rs (beside this script) against the crate in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D/main.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
portgraph = { path = "$R", features = ["petgraph", "serde"] }
petgraph = "*"
itertools = "*"
bitvec = "*"
serde_json = "*"
[workspace]
E
cd "$T" && export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
cargo build --offline -q || exit 2
timeout 60 ./target/debug/demo
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(id, prop, needs, breaks, main):
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    diff = subprocess.run("git -C /tmp/sb diff -- src", shell=True, stdout=subprocess.PIPE).stdout
    assert diff.strip(), "empty diff"
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    shutil.copy(main, d + "/main.rs")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    t = sh("cd /tmp/sb && . /opt/vp/env.sh && touch src/lib.rs && cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1 | tail -40")
    ok = "FAILED" not in t.stdout and "error" not in t.stdout
    b = sh(f"cd /tmp/sb && bash {d}/demo.sh")
    a = sh(f"cd /repo && bash {d}/demo.sh")
    good = ok and b.returncode not in (0, 2) and a.returncode == 0
    print(id, "tests", "pass" if ok else "FAIL\n" + t.stdout[-1500:], "demo patched", b.returncode, "clean", a.returncode, "OK" if good else "REJECT\n" + b.stdout[-800:] + a.stdout[-800:])
    sh("git -C /tmp/sb checkout -- . ")
    if not good:
        shutil.rmtree(d)
def attempt(id, checks):
    d = f"{V}/seeded/{id}"
    checks = checks or [json.load(open(d + "/meta.json"))["property"]]
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode: print(id, "APPLY FAIL", r.stdout); return
    try:
        for c in checks:
            r = sh(f"cd {V} && python3 check.py {c} quick")
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "problem" in l or "CHECK-ERROR" in l]
            print(id, c, "rc", r.returncode, r.stdout.splitlines()[0][:150] if r.stdout else "", "|", (v[-1][:300] if v else ""), flush=True)
    finally:
        sh("git -C /repo checkout -- .")
if sys.argv[1] == "make": make(*sys.argv[2:7])
elif sys.argv[1] == "try": attempt(sys.argv[2], sys.argv[3:])
elif sys.argv[1] == "all":
    for i in sorted(os.listdir(V + "/seeded")): attempt(i, [])
