#!/bin/bash
# runs demo_test.go as a test of the root package, laid in by an overlay
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go test -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo$' .
