#!/bin/bash
# check.sh PROPERTY TIER: run one check from /verif.
cd "$(dirname "$0")" || exit 2
[ -x bin/gosym ] || bash engine/build.sh || exit 2
exec ./bin/gosym check -verif "$PWD" -repo /repo -prop "$1" -tier "$2"
