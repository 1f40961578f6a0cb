#!/bin/bash
# usage: check.sh PROPERTY quick|thorough     run the check of one property
#        check.sh replay FILE                 reproduce a violation
# Everything is built from the working trees of /verif/sim and /repo.
cd "$(dirname "$0")" || exit 3
here=$PWD
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
tmp=$(mktemp -d /tmp/verif.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
case $1 in
replay) prop=$(sed -n 's/^ *"property": "\(C[0-9]*\)".*/\1/p' "$2" | head -1) ;;
*) prop=$1 ;;
esac
case $prop in
C0[1-9]) bin=vsim more= ;;
C1[0-9] | C20) bin=psim more="-sim $here/sim" ;;
*) echo "check.sh: no check for '$prop'" >&2; exit 3 ;;
esac
(cd sim && go build -trimpath -ldflags=-checklinkname=0 -o "$tmp/$bin" ./cmd/$bin) || { echo "check.sh: cannot build the simulator" >&2; exit 3; }
if [ "$1" = replay ]; then
	TMPDIR=$tmp "$tmp/$bin" replay "$(realpath "$2")" $more
else
	TMPDIR=$tmp "$tmp/$bin" check "$prop" -tier "${2:-quick}" -verif "$here" $more
fi
