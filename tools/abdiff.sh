#!/bin/bash
# abdiff.sh PLANFILE [A] [B]: compare the event traces of two scenarios of a run
build=/verif/build/sim/ipoptsim
$build run $1 trace > /tmp/ab.all 2>&1
grep "^\[${2:-A}\] ev" /tmp/ab.all | sed 's/^\[[^]]*\]//; s/(wall.*//' > /tmp/ab.a
grep "^\[${3:-B}\] ev" /tmp/ab.all | sed 's/^\[[^]]*\]//; s/(wall.*//' > /tmp/ab.b
wc -l /tmp/ab.a /tmp/ab.b | head -2
diff /tmp/ab.a /tmp/ab.b | head -30
