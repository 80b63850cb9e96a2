#!/bin/bash
# Builds the engine once, so that the build cache is warm.
cd "$(dirname "$0")"
. /opt/vp/env.sh
cd engine && go build -o /dev/null .
