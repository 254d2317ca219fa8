#!/bin/bash
# check.sh ID [quick|thorough]: exit 0 held, 1 violation, 2 could not build, 3 nothing conclusive
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
bash /verif/bin/build.sh || exit 2
exec /verif/.build/target/release/dst run "$id" "$tier" "$seed"
