#!/bin/bash
# build.sh [race|wt] : builds the simulator from /repo's working tree into
# /verif/.build and prints the path of the binary.
set -e
mode=${1:-plain}
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export CGO_ENABLED=0
B=$here/.build
mkdir -p "$B"
( cd "$here/tools" && go build -o "$B/instr" ./instr )
dirs=()
while read -r d; do dirs+=(-pkg "$d"); done < <(cd /repo && find . -name '*.go' ! -name '*_test.go' -not -path './.git/*' -printf '%h\n' | sort -u | sed 's|^\.|/repo|')
tomb=$(cd /repo && go list -m -f '{{.Dir}}' gopkg.in/tomb.v2)
goroot=$(go env GOROOT)
ov=$B/ov
rm -rf "$ov" "$B/tomb"
"$B/instr" -out "$ov" -goroot "$goroot" "${dirs[@]}" -copy "$tomb=$B/tomb" -pkg "$goroot/src/context" >&2
# module file: ours plus /repo's requirements, in scratch
m=$B/mod.mod
{ echo "module verif/sim"; echo; echo "go 1.27"; echo; echo "require github.com/juju/worker/v4 v4.0.0"; echo "replace github.com/juju/worker/v4 => /repo"; echo "replace gopkg.in/tomb.v2 => $B/tomb"; sed -n '/^require/,/^)/p' /repo/go.mod; } > "$m"
cp /repo/go.sum "$B/mod.sum"
cd "$here/sim"
case $mode in
plain) go build -overlay "$ov/overlay.json" -modfile "$m" -o "$B/sim" ./cmd/sim; echo "$B/sim" ;;
wt) go build -trimpath -overlay "$ov/overlay.json" -modfile "$m" -o "$B/simwt" ./cmd/simwt; echo "$B/simwt" ;;
race) export CGO_ENABLED=1
  # sync.Pool orders its users under the race detector; without reuse it does not
  sed -e 's/^func (p \*Pool) Put(x any) {$/&\n\treturn/' -e 's/^func (p \*Pool) Get() any {$/&\n\tif p.New != nil {\n\t\treturn p.New()\n\t}\n\treturn nil/' "$goroot/src/sync/pool.go" > "$ov/pool.go"
  sed -i "s|\"Replace\": *{|&\"$goroot/src/sync/pool.go\": \"$ov/pool.go\",|" "$ov/overlay.json"
  go build -race -overlay "$ov/overlay.json" -modfile "$m" -o "$B/simrace" ./cmd/sim; echo "$B/simrace" ;;
esac
