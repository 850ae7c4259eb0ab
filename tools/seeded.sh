#!/bin/bash
# seeded.sh [ID...]: run, for each planted bug, its property's quick check
# against /repo with the bug applied (and undo it).
here=$(cd "$(dirname "$0")/.." && pwd)
[ -n "$(git -C /repo status --porcelain -uno)" ] && { echo "/repo is not clean"; exit 2; }
[ $# -eq 0 ] && set -- $(ls "$here/seeded")
for id; do
	p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$here/seeded/$id/meta.json")
	git -C /repo apply "$here/seeded/$id/patch.diff" || continue
	s=$(date +%s)
	out=$(bash "$here/check.sh" ${P:-$p} quick 2>&1); rc=$?
	git -C /repo checkout -- .
	echo "$id ${P:-$p} rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -m1 VIOLATION || echo "$out" | tail -1 | cut -c1-150)"
	[ -n "${V:-}" ] && echo "$out" | tail -20
done
