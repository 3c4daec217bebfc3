#!/bin/bash
# Builds the compiler driver and the dependency metadata used by every check. Everything is offline and under /verif/build.
set -e
here=$(cd "$(dirname "$0")" && pwd)
python3 "$here/check.py" --setup
