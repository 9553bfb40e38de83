#!/bin/bash
# Usage: check.sh <ID> [--replay engine:seed]. Builds the harness against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 3
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_RUSTFLAGS
export CARGO_NET_OFFLINE=true
mkdir -p evidence target
log=target/build.log
( flock 9; cd harness && cargo build --offline >../"$log" 2>&1 ) 9>target/.lock
if [ $? -ne 0 ]; then
	# C26 has an answer: the handles do not go where the programs of the harness take them any more.
	errors=$(grep -E "^error" "$log" | grep -vE "^error: could not compile|^error: aborting" | grep -c .)
	threads=$(grep -E "^error(\[E0277\])?: .*(can not|cannot) be (sent|shared) between threads safely" "$log" | grep -c .)
	if [ "$1" = C26 ] && [ "$errors" -gt 0 ] && [ "$errors" = "$threads" ]; then
		text=$(grep -E "^error" -A40 "$log" | head -80)
		python3 - "$errors" "$text" <<-'EOF'
			import json, os, sys
			n, text = int(sys.argv[1]), sys.argv[2]
			tier, seed = os.environ.get("VERIF_TIER") or "quick", int(os.environ.get("VERIF_SEED") or 1)
			json.dump({"property": "C26", "tier": tier if tier == "thorough" else "quick", "seed": seed, "level": "exploration", "wall_s": 0.0, "violations": n,
			    "coverage": {"evaluations": n, "distinct_nontrivial": n, "rule": "places of the harness that move or share handles between threads and that the compiler rejects", "samples": [text]}}, open("evidence/C26.json", "w"), indent=1)
			json.dump({"property": "C26", "tier": tier, "seed": seed, "replay": "cd /verif && ./check.sh C26", "violations": [{"key": "bounds", "detail": text}]}, open("evidence/replay-C26.json", "w"), indent=1)
		EOF
		echo "$text" | head -20
		echo "VIOLATION property=C26 replay=$PWD/evidence/replay-C26.json"
		exit 1
	fi
	echo "ERROR: the harness does not build against /repo:"
	grep -E "^error" -A8 "$log" | head -60
	exit 3
fi
exec ./target/debug/fizyr-verif "$@"
