#!/bin/bash
# check.sh PROPERTY TIER: builds the driver and checks one property.
# check.sh build: builds driver and worker (warms the build cache).
# check.sh replay FILE: replays a stored violation.
set -u
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh
[ -d "${GOCACHE%/*}" ] || export GOCACHE=/tmp/verif-gocache
mkdir -p .build/bin || exit 3
(cd cmd/simctl && go build -buildvcs=false -o ../../.build/bin/simctl .) || exit 3
here=$PWD
case ${1:-} in
build) exec .build/bin/simctl -verif "$here" build ;;
replay) exec .build/bin/simctl -verif "$here" replay "$2" ;;
*) exec .build/bin/simctl -verif "$here" check "$1" "${2:-quick}" ;;
esac
