#!/bin/bash
# mut.sh ID FILE SED-EXPR [args]: run a check against a mutated copy of /repo
set -e
d=$(mktemp -d /tmp/mutXXXXXX)
cp -a /repo/. $d/
sed -i -E "$3" $d/$2
(cd $d && git diff --stat | head -3)
VERIF_REPO=$d python3 /verif/run.py $1 "${@:4}" | cut -c1-230 | tail -${TAILN:-3} || true
rm -rf $d
