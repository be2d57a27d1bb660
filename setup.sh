#!/bin/bash
# Builds every harness crate, offline, against /repo.
set -e
cd "$(dirname "$0")"
python3 run.py --build
