#!/bin/bash
# Nothing to build: the framework is plain Python run with the repository's own
# interpreter.  This only verifies that the files are complete.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m pfmon --selftest
