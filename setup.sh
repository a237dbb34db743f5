#!/bin/bash
# Nothing is kept: the checks build what they need. This shows that they can.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
gcc -O1 -shared -fPIC -D_LARGEFILE64_SOURCE -o /dev/null mc/native/inject.c -ldl -lpthread 2>/dev/null || exit 1
/opt/venv/bin/python -c 'import numpy, astropy, numba' || exit 1
exit 0
