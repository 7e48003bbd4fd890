#!/bin/bash
# usage: ./check.sh <property> <quick|thorough> [--phase P] [--case N]
# Builds the harness together with the code in /repo's working tree, and runs
# the monitors of one property. Exit 0: held on everything observed; exit 1
# and a VIOLATION line: violated; anything else: no verdict.
cd "$(dirname "$0")" || exit 3
here=$PWD
. /opt/vp/env.sh

prop=$1 tier=${2:-${VERIF_TIER:-quick}}
shift; shift
export VERIF_SEED=${VERIF_SEED:-1}

tmp=$(mktemp -d /tmp/verif.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT

race=
[ "$prop" = C26 ] && race=-race
# Copies of the module files, so that a build never edits the committed ones.
sed "s#=> \.\./\.\./repo#=> /repo#" harness/go.mod >"$tmp/go.mod"
cp harness/go.sum "$tmp/go.sum"
if ! (cd harness && go build $race -ldflags=-checklinkname=0 \
	-modfile="$tmp/go.mod" -o "$tmp/vh" .) >"$tmp/build.log" 2>&1; then
	cat "$tmp/build.log"
	echo "ERROR property=$prop the harness does not build"
	exit 3
fi
[ "$prop" = build ] && exit 0
"$tmp/vh" -prop "$prop" -tier "$tier" -root "$here" "$@"
