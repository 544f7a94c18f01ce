#!/bin/bash
# Nothing to build: the checks are Python and import /repo's working tree directly.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/venv/bin/python -c 'import numpy, scipy, tensorflow' >/dev/null 2>&1 || { echo "python environment unusable"; exit 1; }
echo ok
