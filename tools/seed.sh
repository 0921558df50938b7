#!/bin/bash
# seed.sh ID PROP FILE PERL NEEDS BREAKS  (demo_test.go body on stdin; package xsqlparser_test, func TestDemo)
# plants a bug in a scratch copy of /repo, confirms that it builds, passes the stable tests and
# that the demonstration fails with it and passes without it, and keeps it in /verif/seeded/ID.
set -u
id=$1 prop=$2 file=$3 perl=$4 needs=$5 breaks=$6
out=/verif/seeded/$id
d=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$d"' EXIT
mkdir -p $d/s; cat > $d/s/demo_test.go
cat > $d/s/demo.sh <<'D'
#!/bin/bash
# runs the demonstration against the repository in the current directory
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\"Replace\":{\"$PWD/zz_demo_test.go\":\"$here/demo_test.go\"}}" > "$t/o.json"
timeout 200 go test -overlay "$t/o.json" -vet=off -count=1 -timeout 120s -run 'TestDemo$' .
D
cp -a /repo $d/r
(cd $d/r && bash $d/s/demo.sh > $d/clean.log 2>&1) || { echo "DEMO FAILS ON CLEAN"; head -c 1500 $d/clean.log; exit 1; }
cd $d/r || exit 1
perl -0pi -e "$perl" $file
git diff --quiet && { echo "NO CHANGE"; exit 1; }
git diff > $d/s/patch.diff
go build ./... || { echo "NO BUILD"; exit 1; }
go test -json -vet=off -count=1 -timeout 3m ./... > $d/log 2>&1
python3 /opt/vp/results.py $d/res.json gojson:$d/log >/dev/null 2>&1
python3 - $d/res.json <<'P' || exit 1
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1]))
m=b-set(o['passed'])
if m: print('TESTS CATCH IT:',sorted(m)[:3],len(m)); sys.exit(1)
P
bash $d/s/demo.sh > $d/bug.log 2>&1 && { echo "DEMO PASSES WITH BUG"; exit 1; }
python3 - "$prop" "$needs" "$breaks" > $d/s/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
mkdir -p $out && cp $d/s/* $out/
git blame -s -L/x/,+1 README.md >/dev/null 2>&1
# original lines only?
git diff -U0 | grep '^@@' | sed 's/.*-\([0-9]*\),*\([0-9]*\) .*/\1 \2/' | while read a n; do n=${n:-1}; [ "$n" = 0 ] && continue; git blame -s -L$a,+$n HEAD -- $file | grep -v '^\^' | cut -c1-80 | sed 's/^/NOT ORIGINAL: /'; done
echo "KEPT $id"; tail -5 $d/bug.log | cut -c1-200
if [ -x /verif/bin/gover ]; then GOVER_REPO=$d/r /verif/bin/gover $prop 2>&1 | tail -2 | cut -c1-250; fi
