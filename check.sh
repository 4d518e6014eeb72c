#!/bin/bash
# usage: check.sh ID [flags]     run the check of one property (tier from VERIF_TIER)
#        check.sh replay FILE    run one recorded execution
# Builds the check from /repo's working tree, then explores. Exit 0: held on
# everything explored; 1: violation; other: error of the check.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GO111MODULE=on
: "${VERIF_TIER:=quick}"
export VERIF_TIER GOGC=800
id=$1; shift
args=("$@")
mode=check
if [ "$id" = replay ]; then
	mode=replay
	id=$(sed -n 's/.*"property": "\([A-Z][0-9]*\)".*/\1/p' "${args[0]}" | head -1)
fi
overlay= flags=
case $id in
C0[1-7]) bin=xmltreecheck ;;
C08) bin=racecheck overlay=both flags=-race ;;
C1[0-6]) bin=xsdcheck overlay=maps ;;
C2[0-5]) bin=xsdgencheck overlay=maps ;;
C30) bin=wsdlcheck overlay=maps ;;
C3[12]) bin=wsdlgencheck overlay=maps ;;
C40) bin=depcheck overlay=maps ;;
C4[12]) bin=gencheck ;;
*) echo "unknown property $id" >&2; exit 2 ;;
esac
# Every run builds in a directory of its own, so that runs can overlap.
mkdir -p "$here/.build"
work=$(mktemp -d "$here/.build/$id.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
mod=()
if [ -n "$VERIF_REPO" ]; then # development only: check a copy of the repository
	sed "s#=> /repo#=> $VERIF_REPO#" "$here/harness/go.mod" > "$work/go.mod"
	cp "$here/harness/go.sum" "$work/go.sum"
	mod=(-modfile="$work/go.mod")
fi
export VERIF_REPO=${VERIF_REPO:-/repo}
cd "$here/harness" || exit 2
ov=()
if [ -n "$overlay" ]; then
	if go build "${mod[@]}" -o "$work/instrument" ./cmd/instrument &&
		"$work/instrument" -mode "$overlay" -repo "$VERIF_REPO" -out "$work/overlay" &&
		go build $flags "${mod[@]}" -overlay "$work/overlay/overlay.json" -tags vhook -o "$work/$bin" "./cmd/$bin"; then
		ov=(ok)
	else
		echo "note: instrumentation did not build; running without control of map order" >&2
	fi
fi
if [ ${#ov[@]} = 0 ]; then
	go build $flags "${mod[@]}" -o "$work/$bin" "./cmd/$bin" || exit 2
fi
cd "$here" || exit 2
case $bin in
*gencheck)
	# The code generators ask "go env" each time they format source. A
	# stand-in repeats its answer, which saves half of the time.
	vars="GO111MODULE GOFLAGS GOINSECURE GOMOD GOMODCACHE GONOPROXY GONOSUMDB GOPATH GOPROXY GOROOT GOSUMDB"
	real=$(command -v go)
	answer=$("$real" env -json $vars) || answer=
	case $answer in
	*"'"*|"") ;;
	*)
		mkdir "$work/path"
		cat > "$work/path/go" <<-EOF
			#!/bin/sh
			if [ "\$*" = "env -json $vars" ]; then
			printf '%s\\n' '$answer'
			exit 0
			fi
			exec $real "\$@"
		EOF
		chmod +x "$work/path/go"
		export PATH=$work/path:$PATH
		;;
	esac
	;;
esac
if [ $mode = replay ]; then
	"$work/$bin" replay "${args[0]}"
else
	"$work/$bin" check "$id" "${args[@]}"
fi
