#!/bin/bash
# replay.sh FILE: re-executes a recorded violation (exit 1 if it happens again)
bash /verif/bin/build.sh || exit 2
exec /verif/.build/target/release/dst replay "$1"
