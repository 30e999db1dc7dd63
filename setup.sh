#!/bin/sh
# nothing to build: checks import /repo's working tree and run TLC on spec/
cd "$(dirname "$0")" || exit 1
test -f /opt/veriftools/tla/tla2tools.jar && /opt/venv/bin/python -c 'import sys' && mkdir -p evidence
