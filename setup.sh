#!/bin/sh
# Nothing to build ahead: every check builds its driver from /repo. Verify that the tools are there.
set -e
command -v java gcc clang python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence
