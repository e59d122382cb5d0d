#!/bin/bash
# Builds the demonstration against the library's sources (cwd: the repository) and runs it.
set -e
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -r -- "$T"' EXIT
mkdir -p "$T/i/geoarrow"
sed -e 's/@GEOARROW_VERSION_M[A-Z]*@/0/; s/@GEOARROW_VERSION_PATCH@/0/; s/@GEOARROW_VERSION@/0.0.0/' \
    -e 's/@GEOARROW_USE_RYU_DEFINE@/#define GEOARROW_USE_RYU 1/; s/@GEOARROW_USE_FAST_FLOAT_DEFINE@/#define GEOARROW_USE_FAST_FLOAT 0/; s/@GEOARROW_NAMESPACE_DEFINE@//' \
    src/geoarrow/geoarrow_config.h.in > "$T/i/geoarrow/geoarrow_config.h"
gcc -std=gnu11 -g -O1 -w -fsanitize=address,undefined -fno-sanitize=alignment,pointer-overflow -fno-sanitize-recover=all \
    -I "$T/i" -I src -I src/vendor "$H/demo.c" src/geoarrow/*.c src/geoarrow/ryu/*.c src/vendor/nanoarrow/nanoarrow.c -o "$T/demo" -lm
export ASAN_OPTIONS=detect_leaks=0
timeout 120 "$T/demo"
