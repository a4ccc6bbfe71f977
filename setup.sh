#!/bin/bash
# Nothing is compiled: the checks run TLC on spec/ and import /repo as it is.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
/opt/venv/bin/python -B -c 'import pyasn1'
