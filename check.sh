#!/bin/bash
# usage: check.sh C01 quick|thorough   (rebuild = import from /repo's working tree, no bytecode cache)
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -B -m vmon.run --property "$1" --tier "${2:-quick}"
