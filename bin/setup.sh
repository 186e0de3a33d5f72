#!/bin/bash
# Nothing is built: checks that the tools the checks need are present.
set -e
cd "$(dirname "$0")/.."
/opt/venv/bin/python -c 'import sys; assert sys.version_info >= (3, 12)'
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence work
