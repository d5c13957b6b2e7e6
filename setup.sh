#!/bin/bash
# Nothing to build: the framework is pure Python run by the repository's interpreter.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '.')
from vt import common, evalx, oracle, gen
common.use_repo()
import triples" || exit 1
echo setup ok
