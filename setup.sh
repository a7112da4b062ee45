#!/bin/bash
# Nothing to compile: the specifications are interpreted by TLC and beep is
# imported from /repo. Only verify that the tools the checks need are there.
set -e
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
/opt/venv/bin/python -c "import numpy, pandas, xmltodict, click" 
chmod +x "$(dirname "$0")"/check.sh
mkdir -p "$(dirname "$0")"/evidence
echo setup ok
