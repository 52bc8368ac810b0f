#!/bin/bash
# replay.sh FILE: builds the simulator against /repo's working tree and replays a recorded violation.
f=$(realpath "$1") || exit 3
cd "$(dirname "$0")" || exit 3
./check.sh setup || exit 4
exec ./target/release/sim replay "$f"
