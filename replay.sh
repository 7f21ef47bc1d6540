#!/bin/bash
# replay.sh FILE: run a reported counterexample against the real code.
cd "$(dirname "$0")" || exit 2
[ -x bin/gosym ] || bash engine/build.sh || exit 2
exec ./bin/gosym replay -verif "$PWD" -repo /repo "$1"
