#!/bin/bash
# ./run.sh setup                     builds the analyzer
# ./run.sh PROPERTY [quick|thorough] decides one property from /repo's current source
# ./run.sh all [quick|thorough]      decides all of them
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
here=$PWD
prop=${1:-all}
tier=${2:-quick}
mkdir -p .build evidence
fail() { # the analysis gave no answer: what cannot be decided is reported, never passed
	echo "$prop: $1"
	mkdir -p evidence
	echo "$prop: $1" >"evidence/$prop.violations.txt"
	echo "VIOLATION property=$prop replay=$here/evidence/$prop.violations.txt"
	exit 1
}
want=$(cat analyzer/*.go analyzer/go.mod analyzer/about.json | sha256sum | cut -c1-16)
bin=.build/d1static-$want
if [ ! -x "$bin" ]; then
	tmp=.build/new.$$
	if ! (cd analyzer && go build -o "../$tmp" .); then
		echo "the analyzer does not build"
		exit 2
	fi
	rm -f "$here"/.build/d1static-*
	mv "$tmp" "$bin"
fi
[ "$prop" = setup ] && exit 0
timeout 600 "$bin" check -prop "$prop" -tier "$tier" -repo /repo -out "$here"
rc=$?
case $rc in
0 | 1) exit $rc ;;
2) exit 2 ;;
*) fail "the analysis stopped without an answer (exit $rc)" ;;
esac
