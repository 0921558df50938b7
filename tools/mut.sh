#!/bin/bash
# mut.sh "Cxx Cyy" FILE PERL_EXPR : run checks against a scratch copy of /repo with FILE edited by perl -0pi -e EXPR
set -u
d=$(mktemp -d /tmp/mut.XXXXXX); cp -a /repo/. $d/
perl -0pi -e "$3" $d/$2
if diff -q /repo/$2 $d/$2 >/dev/null; then echo "NO CHANGE"; fi
(cd $d && go build ./... ) || echo "DOES NOT BUILD"
for c in $1; do GOVER_REPO=$d /verif/bin/gover $c 2>&1 | cut -c1-300 | tail -4; done
rm -rf "$d"
