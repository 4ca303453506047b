#!/bin/bash
# build.sh OUT: builds the harness against /repo's working tree.
set -e
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOSUMDB=off
here=$(cd "$(dirname "$0")" && pwd)
out=$1
work=$(mktemp -d /tmp/vh.XXXXXX)
trap 'rm -rf "$work"' EXIT
cp "$here"/*.go "$here"/go.mod "$work"/
cp /repo/go.sum "$work"/go.sum
{ echo 'package main'; sed -n '2,$p' "$here/../contracts/spec_scalar.go" | sed '0,/^import (/s//import (\n\t. "github.com\/gagliardetto\/binary"/'; } > "$work"/spec_gen.go
cd "$work"
if [ -n "$2" ]; then
  go build -overlay "$2" -o "$out" . 
else
  go build -o "$out" .
fi
