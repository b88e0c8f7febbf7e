#!/usr/bin/env python3
"""mk.py SPEC.py [ID..]: SPEC defines B(id, prop, edits, needs, breaks, demo); confirm and keep each planted bug (scratch copy /tmp/sb)."""
import os, subprocess, sys
BUGS = []
def B(id, prop, edits, needs, breaks, demo):
    BUGS.append((id, prop, edits, needs, breaks, demo))
exec(open(sys.argv[1]).read())
if not os.path.isdir("/tmp/sb"):
    subprocess.run("cp -a /repo /tmp/sb", shell=True, check=True)
subprocess.run("rsync -a --delete /repo/src/ /tmp/sb/src/ 2>/dev/null || (rm -rf /tmp/sb/src && cp -a /repo/src /tmp/sb/src); git -C /tmp/sb fetch -q /repo HEAD && git -C /tmp/sb reset -q --hard FETCH_HEAD", shell=True, check=True)
for id, prop, edits, needs, breaks, demo in BUGS:
    if len(sys.argv) > 2 and id not in sys.argv[2:]:
        continue
    bad = False
    for f, o, n in edits:
        p = "/tmp/sb/src/" + f
        s = open(p).read()
        if s.count(o) != 1:
            print(id, f, "pattern count", s.count(o)); bad = True; break
        open(p, "w").write(s.replace(o, n))
    if bad:
        subprocess.run("git -C /tmp/sb checkout -q -- .", shell=True)
        continue
    src = demo if "fn main" in demo else "fn main() {\n" + demo + "}\n"
    open("/tmp/m.rs", "w").write("#![allow(unused)]\nuse ::portgraph::*;\nuse ::portgraph::algorithms::*;\nuse ::portgraph::view::*;\n" + src)
    subprocess.run(["python3", "/verif/tools/seed.py", "make", id, prop, needs, breaks, "/tmp/m.rs"])
