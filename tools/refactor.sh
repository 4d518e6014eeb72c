#!/bin/bash
# Rewrites a copy of /repo with harness/cmd/refactor (which see) and runs all
# checks, or those named, on it: none may report anything. Development only.
#   refactor.sh [KINDS [ID...]]      KINDS: if,range,return,swap,helper,order
root=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
kinds=${1:-if,range,return,swap,helper,order}; shift
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(sed -n 's/.*"id": *"\(C[0-9]*\)".*/\1/p' "$root/properties.jsonl"))
w=/tmp/refactored
rm -rf /tmp/refactored; cp -a /repo $w || exit 2
(cd "$root/harness" && GOFLAGS=-mod=mod go build -o $w.tool ./cmd/refactor) || exit 2
for k in ${kinds//,/ }; do (cd $w && $w.tool $w $k) || exit 2; done
(cd $w && go build ./... && go test ./... 2>&1 | grep -v "no test files") || echo "(tests)"
bad=0
for id in "${ids[@]}"; do
	out=$(VERIF_REPO=$w "$root/check.sh" "$id" 2>&1); rc=$?
	echo "$id $rc $(echo "$out" | grep '^OK')"
	[ $rc = 0 ] && ! grep -q VIOLATION <<<"$out" || { bad=1; echo "$out" | grep -A12 VIOLATION | cut -c1-400; }
done
rm -rf /tmp/refactored /tmp/refactored.tool
exit $bad
