#!/bin/sh
# Nothing to build: checks load /repo's working tree directly.  Verifies the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
/opt/venv/bin/python -c 'import requests, urllib3, coincurve; import sys; sys.path.insert(0, "."); import sim.btc'
