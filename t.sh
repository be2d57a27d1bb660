#!/bin/bash
# dev helper: t.sh ID [check...] : runs checks, trims output
cd /verif
id=$1; shift
if [ $# -eq 0 ]; then python3 run.py $id 2>&1 | cut -c1-${W:-1500} | head -${N:-120}; fi
for c in "$@"; do VERIF_ONLY=$c python3 run.py $id 2>&1 | sed -n '/^error/,/^$/p;/^--- /,/^  "distinct/p;/^KNOWN/p;/^P[0-9]/p;/"labels"/,/}/p' | cut -c1-${W:-1500} | head -${N:-150}; done
