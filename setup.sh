#!/bin/bash
# Nothing to fetch or to build ahead: every check builds what it needs from /repo. This only looks for the tools.
set -e
cd "$(dirname "$0")"
for t in clang++ ninja java python3; do command -v $t >/dev/null || { echo "missing tool: $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
python3 -c 'import sys; sys.path.insert(0,"lib"); import registry'
echo ok
