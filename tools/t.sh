# dev helper: run all entries of the given modules, one summary line each
cd /verif
for p in $@; do bash tools/b.sh $p $(grep -oE "^${p}_[a-z0-9_]+" harness/src/$p.rs) 2>&1 | python3 -c "
import sys,re
for l in sys.stdin:
    m=re.search(r\"'entry': '(\w+)', 'wall_s': ([\d.]+), 'paths': (\d+).*'solver_s': ([\d.]+).*'timeout': (\w+), 'errors': (\[.*\]), 'covers': (.*)}\",l)
    if l.strip()!='rc=0': print(m.groups() if m else l.strip())"; done
