#!/bin/sh
# Nothing to build: the specification is interpreted by TLC, the harness by python.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "/repo"); import estrade, arrow, freezegun'
