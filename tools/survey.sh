#!/bin/bash
# survey.sh PROP SECONDS [SEED0] [tier]: explore with 8 workers, summarise violations by class
P=$1; S=$2; B0=${3:-1}; T=${4:-q}
BIN=${SIM_BIN:-/verif/build/sim/ipoptsim}
D=$(mktemp -d /tmp/survey.XXXX)
for w in 0 1 2 3 4 5 6 7; do $BIN batch $P $((B0+w)) 8 1000000 $S $T > $D/o$w & done; wait
cat $D/o* | grep '^V ' > $D/v
echo "runs: $(cat $D/o* | awk '/^RUNS/{a+=$2}END{print a}')  sigs: $(cat $D/o* | grep -c '^S ')  dir $D"
awk '{k=$3" "$4; n[k]++; if(n[k]<=6) e[k]=e[k]" "$2} END{for(k in n) print n[k], k, "seeds:", e[k]}' $D/v | sort -rn
