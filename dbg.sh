#!/bin/bash
# run one seed of a scenario with stderr visible: dbg.sh SCENARIO SEED
echo "$2 - - 60000" | env -i LANG=C "${VERIF_TARGET:-/verif/target}"/x86_64-unknown-linux-gnu/release/dst serve "$1" -
