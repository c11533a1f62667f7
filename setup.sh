#!/bin/bash
# Nothing is installed: checks that the tools the checks rely on are there.
cd "$(dirname "$0")" || exit 1
set -e
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
/opt/venv/bin/python -c 'import numpy, scipy, numba'
mkdir -p evidence
echo "setup ok"
