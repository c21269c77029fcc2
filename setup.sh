#!/bin/bash
# builds the verifier (offline)
here=$(cd "$(dirname "$0")" && pwd)
[ -x "$here/bin/gvc" ] && [ -z "$(find "$here/gvc" -name '*.go' -newer "$here/bin/gvc" -print -quit)" ] && exit 0
mkdir -p "$here/bin"
cd "$here/gvc" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off go build -o "$here/bin/gvc.$$" . && mv -f "$here/bin/gvc.$$" "$here/bin/gvc"
