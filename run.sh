#!/bin/bash
# run.sh ID: decide one property on /repo's current working tree.
# run.sh --setup: build the analyzer only.
dir="$(cd "$(dirname "$0")" && pwd)"
. "$dir/env.sh"
mkdir -p "$dir/bin"
(cd "$dir/analyzer" && GOFLAGS=-mod=vendor go build -o "$dir/bin/rdcheck" .) || exit 2
[ "$1" = "--setup" ] && exit 0
exec "$dir/bin/rdcheck" -verif "$dir" -repo "${RD_REPO:-/repo}" -prop "$1"
