#!/bin/bash
# Usage: run.sh ID [quick|thorough] -- builds the harness and runs one check against /repo.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS="-buildvcs=false"
unset CC CPP GO111MODULE
export VCK_VERIF="$here"
bin="$(mktemp -d /tmp/vckbin.XXXXXX)" || exit 3
trap 'rm -rf "$bin"' EXIT
( cd "$here/h" && go build -o "$bin/vck" . ) || exit 3
"$bin/vck" "$@"
