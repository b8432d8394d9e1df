#!/bin/bash
# Builds the native parts of the framework from the committed sources.
set -e
cd "$(dirname "$0")"
mkdir -p build
PY=/opt/venv/bin/python
INC=$($PY -c "import sysconfig;print(sysconfig.get_paths()['include'])")
NPI=$($PY -c "import numpy;print(numpy.get_include())")
gcc -O2 -shared -fPIC -I"$INC" -I"$NPI" dst/simalloc.c -o build/simalloc.so
