#!/bin/bash
# Nothing to install: verify that the toolchain the checks need is there and that every specification parses.
cd "$(dirname "$0")" || exit 1
command -v tlc >/dev/null || { echo "no tlc"; exit 1; }
/opt/venv/bin/python -c "import sys; sys.path.insert(0,'/repo'); sys.dont_write_bytecode=True; import zoidberg" || exit 1
mkdir -p evidence
exit 0
