#!/bin/bash
# show.sh PROP SEED|FILE [print_level]
if [ -f "$2" ]; then cp $2 /tmp/sh.plan; else /verif/build/sim/ipoptsim gen $1 $2 > /tmp/sh.plan; fi
echo "flag console 1" >> /tmp/sh.plan; echo "opt print_level ${3:-5}" >> /tmp/sh.plan
${SIM_BIN:-/verif/build/sim/ipoptsim} run /tmp/sh.plan trace 2>&1
