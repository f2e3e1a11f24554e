#!/bin/bash
# builds the MIR dumper and warms the dependency builds
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec python3 engine/check.py --setup
