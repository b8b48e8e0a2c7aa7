#!/bin/sh
# builds the syntax front end (offline, dependencies from the cargo cache)
set -e
cd "$(dirname "$0")/../analyzer"
python3 -c "import sys; sys.path.insert(0, '.'); from iba.index import front_bin; print(front_bin())"
