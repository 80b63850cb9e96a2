#!/bin/bash
# check.sh PROPERTY quick|thorough: decides one property for /repo's current tree.
set -u
cd "$(dirname "$0")"
. /opt/vp/env.sh
bin=$(mktemp -d /tmp/verifeng.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
if ! (cd engine && go build -o "$bin/eng" .) >"$bin/log" 2>&1; then
	cat "$bin/log"
	exit 2
fi
"$bin/eng" -prop "$1" -tier "$2" -repo /repo -verif /verif
