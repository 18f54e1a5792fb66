#!/bin/bash
# Runs main.go of this folder against the tree in the working directory (/repo):
# exit 0 if the property holds for its inputs, nonzero if it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOWORK=off GO111MODULE=on
t=$(mktemp -d /tmp/demo-XXXXXXXX)
trap 'rm -r "$t"' EXIT
cp -r "$here/lib/shim" "$t/shim"
cp "$here/main.go" "$t/main.go"
cp "$here/lib/go.sum" "$t/go.sum"
sed "s|@REPO@|$repo|; s|@SHIM@|$t/shim|" "$here/lib/go.mod.in" > "$t/go.mod"
echo "{\"Replace\": {\"$repo/go.mod\": \"$here/lib/repo.mod\"}}" > "$t/overlay.json"
cd "$t" || exit 9
go build -overlay overlay.json -o demo . || exit 8
timeout 200 ./demo
