#!/bin/bash
# gdb.sh PROP SEED|FILE: backtrace of a crash in a simulated run
if [ -f "$2" ]; then cp $2 /tmp/gd.plan; else ${SIM_BIN:-/verif/build/sim/ipoptsim} gen $1 $2 > /tmp/gd.plan; fi
printf 'set follow-fork-mode child\nset pagination off\nrun\nbt 16\n' > /tmp/gdbcmd
SIM_NOASLR=1 gdb -q -batch -x /tmp/gdbcmd --args ${SIM_BIN:-/verif/build/sim/ipoptsim} run /tmp/gd.plan trace 2>&1 | grep -E "^#|SIG" | cut -c1-200
