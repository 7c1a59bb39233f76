#!/bin/bash
# Runs one function full of language constructs for real and, instrumented, in
# 1000 simulated schedules: the results must be equal.
V=$(cd "$(dirname "$0")/.." && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on
[ -n "$HOME" ] || export HOME=/root
S=$(mktemp -d /tmp/jsvalself.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
cp -a /repo "$S/r" && cp "$V/selftest/constructs.go.txt" "$S/r/zz.go" || exit 2
printf 'package jsval\n\nimport (\n"os"\n"testing"\n)\n\nfunc TestZZ(t *testing.T) { os.WriteFile("%s/native", []byte(ZZ()), 0644) }\n' "$S" >"$S/r/zz_test.go"
(cd "$S/r" && go test -vet=off -count=1 -run '^TestZZ$' .) >"$S/log" 2>&1 || { cat "$S/log"; exit 2; }
rm "$S/r/zz_test.go"
(cd "$V/instr" && go build -o "$S/instr" .) || exit 2
mkdir -p "$S/b/h"
"$S/instr" -repo "$S/r" -out "$S/b" -mods "/opt/vp/mod,$V/mod" -level 3 || exit 2
cp "$V/selftest/main.go.txt" "$S/b/h/main.go"
sed "s#@S@#$S/b#; s#@V@#$V#" "$V/harness/go.mod.tmpl" >"$S/b/h/go.mod"
cp "$S/b/jsval/go.sum" "$S/b/h/go.sum"
cd "$S/b/h" && go build -race -o "$S/x" . && "$S/x" "$S/native"
