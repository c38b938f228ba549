#!/bin/sh
# Nothing to install: only make sure that the tools are there.
set -e
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
gcc --version >/dev/null
/opt/detools/venv/bin/python3 -c 'import bitstruct, heatshrink2, lz4, zstandard'
mkdir -p build evidence
