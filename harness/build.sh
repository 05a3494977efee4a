#!/bin/bash
# build.sh NAME: builds a harness by hand (for development); prints the executable
cd /verif && exec python3-vt - "$1" <<'P'
import sys
sys.path.insert(0,'/verif/pirevc')
import framework as F
print(F.build_harness(F.Harness(sys.argv[1]+'.cpp')))
P
