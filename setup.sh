#!/bin/bash
# Warms the build cache for both builds of the harness.
cd "$(dirname "$0")" || exit 1
./check.sh build quick || exit 1
. /opt/vp/env.sh
tmp=$(mktemp -d /tmp/verif.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
cp harness/go.mod harness/go.sum "$tmp/"
cd harness && go build -race -ldflags=-checklinkname=0 \
	-modfile="$tmp/go.mod" -o "$tmp/vh" .
