#!/bin/bash
# Builds the simulator from /repo's current working tree into /verif/build.
# Every statement of plainkv and of the storage layer becomes a simulated step
# (sim/instr, through 'go build -overlay'); /repo itself is not touched.
set -u
here=$(cd "$(dirname "$0")" && pwd)
out=$here/build
mkdir -p "$out"
exec 9>"$out/lock"
flock 9
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
	[ -x "$d/go" ] && { PATH=$d:$PATH; break; }
done
export PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly GONOSUMDB='*' GOSUMDB=off GO111MODULE=on CGO_ENABLED=0
cd "$here/sim" || exit 2
tmp=$out/instr.new
rm -rf "$here/build/instr.new" && mkdir -p "$tmp" || exit 2
go run ./instr "$here/sim/fsm" "$tmp" /repo "$here/sim/fsm/internal" || exit 2
# unchanged sources keep their instrumented copies, so that nothing is rebuilt
sed -i "s#$tmp#$out/instr#" "$tmp/overlay.json"
if ! diff -rq "$tmp" "$out/instr" >/dev/null 2>&1 || [ ! -x "$out/sim" ]; then
	rm -rf "$here/build/instr"
	mv "$tmp" "$out/instr" || exit 2
fi
go build -overlay "$out/instr/overlay.json" -o "$out/sim.new" . || exit 2
mv "$out/sim.new" "$out/sim"
