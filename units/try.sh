#!/bin/bash
# developer helper: extract a unit and run the verifier on it
U=$1; shift
mkdir -p /verif/.build/try
/verif/.build/extract/release/extract /verif/units/$U /repo /verif/.build/try/o.rs /verif/.build/try/o.json || exit 3
cd /verif/.build/try && verus --triggers-mode silent o.rs "$@" 2>&1
