#!/bin/bash
# Everything is built by the checks themselves; this only makes sure the tools are there and the framework parses.
set -e
cd "$(dirname "$0")/.."
. ./env.sh
go version
java -version 2>&1 | head -1
python3 -m py_compile check.py tools/plans.py
(cd harness && go vet ./tr >/dev/null)
mkdir -p evidence
echo ok
