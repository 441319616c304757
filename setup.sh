#!/bin/bash
# nothing to build: the engine is pure Python run by the repository's interpreter and the pre-installed solvers
cd "$(dirname "$0")" && mkdir -p evidence replays && . /dev/null && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import pyded.smt"
