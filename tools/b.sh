# dev helper: build IR for a property module and run its entries
cd /verif/harness; export CARGO_NET_OFFLINE=true
m=$1; shift
cargo rustc --release --features $m -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -C link-arg=-Wl,--unresolved-symbols=ignore-all > /tmp/build.$m 2>&1 || { grep -E '^error' -A8 /tmp/build.$m | head -60; exit 1; }
L=$(ls -t target/release/deps/vharness-*.ll | head -1)
for e in $@; do timeout 900 ../symx/target/release/symx --ll $L --entry $e --records /tmp/rec.$e --out /tmp/o.$e ${SYMX}; echo "rc=$?"; python3 - $e <<'P'
import json,sys
j=json.load(open('/tmp/o.'+sys.argv[1]))
print({k:v for k,v in j.items() if k in ('entry','wall_s','paths','expected_panics','pruned','forks','queries','sat','unsat','solver_s','steps','checks_const','checks_solver','branches_sym','concretizations','covers','errors','cache_hits','timeout')})
for v in j['violations'][:4]: print(v)
P
done
