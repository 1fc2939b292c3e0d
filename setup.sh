#!/bin/bash
# Warms the Go build cache with the SSA dumper; every check builds it again by itself.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh 2>/dev/null || true
export GOSUMDB=off
T=$(mktemp -d)
cp -r gossa "$T/gossa"
(cd "$T/gossa" && go build -o "$T/bin" .)
rm -rf "$T"
python3-vt -c "import z3; print('z3', z3.get_version_string())"
