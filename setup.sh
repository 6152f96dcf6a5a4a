#!/bin/bash
# Warms the Go build cache: the harness and the tool itself compile here once.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS="-buildvcs=false"
d="$(mktemp -d /tmp/vcksetup.XXXXXX)" || exit 3
trap 'rm -rf "$d"' EXIT
( cd "$here/h" && go build -o "$d/vck" . ) && ( cd /repo && go build -o "$d/c-for-go" . )
