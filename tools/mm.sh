#!/bin/bash
# mm.sh ID FILE EXPR...: quick mutations in parallel
id=$1; f=$2; shift 2
for e in "$@"; do
  ( x=$(/verif/tools/mut.sh $id $f "$e" | tail -2 | cut -c1-${W:-170}); echo "== $e
$x" ) &
  while [ $(jobs -r | wc -l) -ge 7 ]; do sleep 0.2; done
done
wait
