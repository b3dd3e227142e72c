#!/bin/bash
# Nothing is kept between runs: every check builds what it needs from /repo.
# This only shows that the toolchain works and compiles the instrumenter once.
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
(cd mc/instr && go build -o "$d/instr" .)
python3 -c 'import sys; sys.path.insert(0, "mc"); import plan'
echo ok
