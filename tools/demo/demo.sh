#!/bin/bash
# run with cwd /repo after the build
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf -- "$W"' EXIT
T=_build/tree
gcc -O1 -w -DGBYTE_ORDER=BYTE_ORDER_LE -DNATIVE_SIZE=NATIVE_SIZE_64_BIT -DUNIX -DPLATFORM=LINUX_GCC -I$T/src -I$T/misc -o "$W/demo" "$D/demo.c" $T/src/libxrtm.a $T/misc/libxrtm_misc.a -lopenblas -lgfortran -lm -fopenmp || exit 3
export OPENBLAS_NUM_THREADS=1
"$W/demo"
