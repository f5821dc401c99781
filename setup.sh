#!/bin/bash
# checks rebuild what they need themselves; this makes sure that the harness builds
cd "$(dirname "$0")" && python3-vt -c "
import sys; sys.path.insert(0, 'engine')
import build
print(build.build([])['seconds'], 's')"
