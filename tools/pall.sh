#!/bin/bash
# run all proofs of a harness in parallel: pall.sh file [proofs]
f=$1; shift
ps="$*"; [ -z "$ps" ] && ps=$(grep -oP '^VC_PROOF\(\K\w+' $f)
for p in $ps; do echo $p; done | xargs -P 8 -I{} sh -c "timeout ${T:-700} python3-vt /verif/llv/verify.py $f {} > /tmp/pall.{}.log 2>&1; grep '^==\|Error\|Unsupported:\|^    unknown\|^    refuted' /tmp/pall.{}.log | sed 's/covers=.*//' | cut -c1-${W:-250}"
