#!/bin/bash
# Builds the system-call seam. Nothing else needs building: the checks import /repo's working tree.
cd "$(dirname "$0")" || exit 2
mkdir -p build
gcc -O1 -w -shared -fPIC -o build/simio.so.tmp sim/simio.c -ldl && mv build/simio.so.tmp build/simio.so
