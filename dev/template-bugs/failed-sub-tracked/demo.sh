#!/bin/bash
# generates code for the document beside this script and runs the test beside it
# against the generated package (an overlay: nothing is written to the repository)
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
timeout 120 go run ./cmd/asyncapi-codegen -p zzdemo -i "$here/asyncapi.yaml" -o "$t/gen.go"  || exit 1
cat > "$t/o.json" <<J
{"Replace": {"$PWD/pkg/zzdemo/gen.go": "$t/gen.go", "$PWD/pkg/zzdemo/zz_demo_test.go": "$here/demo.go.txt"}}
J
timeout 200 go test -overlay "$t/o.json" -vet=off -c -o "$t/demo" ./pkg/zzdemo || exit 1
cd "$t" && timeout 60 ./demo -test.run TestZZDemo
