#!/bin/bash
# check.sh <property> <tier>
cd "$(dirname "$0")" && PYTHONHASHSEED=0 exec python3-vt engine/check.py "$@"
