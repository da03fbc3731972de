#!/bin/bash
# Runs main.go against the tree in the current directory.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
{
	echo '{"Replace": {'
	sep=
	for f in "$here"/*.go; do
		echo "$sep\"$PWD/zzdemo/$(basename "$f")\": \"$f\""
		sep=,
	done
	echo '}}'
} > "$tmp/overlay.json"
go build -buildvcs=false -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 2
TERM=xterm-256color COLORTERM=truecolor timeout 120 "$tmp/demo"
