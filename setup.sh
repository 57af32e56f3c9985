#!/bin/bash
# Nothing to install: checks build what they need from /repo in scratch folders.
set -e
java -version >/dev/null 2>&1
/opt/qugar-venv/bin/python -c 'import numpy, basix'
mkdir -p "$(dirname "$0")/evidence"
echo setup ok
