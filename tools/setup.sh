#!/bin/bash
# Nothing to build: the code under test is imported from /repo, the specifications are interpreted by TLC.
cd "$(dirname "$0")/.." || exit 1
java -version >/dev/null 2>&1 || { echo "java is missing"; exit 1; }
test -x /opt/venv/bin/python || { echo "phyem's interpreter is missing"; exit 1; }
mkdir -p evidence
exit 0
