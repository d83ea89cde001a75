#!/bin/bash
# hrun.sh PID [tier] [filter]: compile and run one harness (development helper)
f=$(sed -n 's#^// FLAGS: ##p' harness/$1.cpp); f=${f:--O1 -fopenmp -fsanitize=address -fno-access-control}
N=$(sed -n 's#^// PARTS: ##p' harness/$1.cpp); N=${N:-4}
for i in $(seq 0 $((N-1))); do g++ -std=c++17 -w -DHH_RESEED -DHH_PARTS=$N -DHH_PART=$i $f -Iharness -I${VERIF_REPO:-/repo} -I/usr/include/eigen3 harness/$1.cpp -o /tmp/h_$1.$i >/tmp/h_$1.$i.log 2>&1 & done; wait
grep -hE 'error|required from' /tmp/h_$1.*.log | head -${ERR:-10}
for i in $(seq 0 $((N-1))); do [ -x /tmp/h_$1.$i ] && ASAN_OPTIONS=detect_leaks=0:exitcode=77 OMP_NUM_THREADS=3 OMP_WAIT_POLICY=passive /tmp/h_$1.$i 1 ${2:-quick} "$3" 4 2>&1 & done | grep -v '^SAMPLE' | awk '/^STAT/{n++;e+=$(NF-1);d+=$NF;if($(NF-1)==0)print "EMPTY",$0;next}{print substr($0,1,400)}END{print n" cases",e,d}'
