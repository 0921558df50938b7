#!/bin/bash
# check.sh Cxx: verify property Cxx on the working tree of /repo. Rebuilds the verifier if needed.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
bash setup.sh >/dev/null || { echo "gover does not build"; exit 2; }
exec bin/gover "$@"
