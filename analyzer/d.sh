#!/bin/bash
# usage: d.sh fn opaque width lines
cd /verif/analyzer; python3 dump.py "$1" --opaque "$2" -w ${3:-300} 2>/dev/null | cut -c1-${3:-300} | head -${4:-25}
