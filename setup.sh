#!/bin/bash
# builds both configurations of the harness from /repo (the checks rebuild what changed)
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replays
python3 run.py build
