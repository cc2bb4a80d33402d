#!/bin/bash
# Builds the simulator against /repo's working tree: build.sh [asan|ls] OUTDIR
# ls: also makes every load and store of library code a scheduling point.
# py: with a Python interpreter in it, which runs the extension modules of py_bind.
set -e
SIM="$(cd "$(dirname "$0")" && pwd)"; REPO="${REPO:-/repo}"; VAR="$1"; OUT="$2"
mkdir -p "$OUT/lib" "$OUT/h"
COV="-fsanitize-coverage=trace-pc-guard"
[ "$VAR" = ls ] && COV="$COV,trace-loads,trace-stores"
REDEF=""
for f in fopen fopen64 fclose rename remove unlink access fileno fsync fdatasync printf puts putchar fflush setlocale malloc calloc realloc free strdup \
   time clock gettimeofday clock_gettime rand srand random srandom getenv exit abort stderr stdout \
   fscanf sscanf sprintf snprintf fprintf strncpy strcpy stpcpy strcat strncat strlen strcmp strncmp strchr strrchr strstr atoi atof strtol strtod \
   fgets fread fwrite memcpy memmove memset memcmp strtok; do REDEF="$REDEF --redefine-sym $f=sim_$f"; done
for f in isoc99_fscanf isoc99_sscanf isoc23_fscanf isoc23_sscanf asan_memcpy asan_memmove asan_memset; do REDEF="$REDEF --redefine-sym __$f=sim_$f"; done
pids=()
for c in "$REPO"/liboptv/src/*.c; do
  b="$(basename "$c" .c)"
  ( clang -g -O1 -fno-omit-frame-pointer -fno-builtin-printf -w -fsanitize=address -fno-common $COV -I"$REPO/liboptv/include" -c "$c" -o "$OUT/lib/$b.o" &&
    objcopy $REDEF "$OUT/lib/$b.o" ) & pids+=($!)
done
for c in "$SIM"/*.cpp; do
  b="$(basename "$c" .cpp)"
  clang++ -std=c++17 -g1 -O1 -Wall -Wno-unused-function -fno-omit-frame-pointer -fsanitize=address -I"$REPO/liboptv/include" -c "$c" -o "$OUT/h/$b.o" & pids+=($!)
done
rc=0; for p in "${pids[@]}"; do wait $p || rc=1; done
[ $rc = 0 ] || exit 1
ld -r -o "$OUT/optv.o" "$OUT"/lib/*.o
objcopy --rename-section .data=optv_data --rename-section .bss=optv_bss,alloc,load,contents,data "$OUT/optv.o"
if [ "$VAR" != py ]; then
  clang++ -fsanitize=address -g1 -o "$OUT/sim" "$OUT"/h/*.o "$OUT/optv.o" -lm
  exit
fi
PY=/opt/optv-venv/bin/python
PYINC="$($PY -c 'import sysconfig; print(sysconfig.get_path("include"))')"
SITE="$($PY -c 'import sysconfig; print(sysconfig.get_path("purelib"))')"
NPINC="$($PY -c 'import numpy; print(numpy.get_include())')"
mkdir -p "$OUT/src/optv" "$OUT/pkg/optv" "$OUT/pkg/driver" "$OUT/inc"
cp "$REPO"/py_bind/optv/*.p[yx]* "$OUT/src/optv/"; cp "$REPO"/py_bind/optv/*.py "$OUT/pkg/optv/"; cp "$SIM"/py/*.py "$OUT/pkg/driver/"
ln -sfn "$REPO/liboptv/include" "$OUT/inc/optv"
pids=()
for x in "$OUT"/src/optv/*.pyx; do
  b="$(basename "$x" .pyx)"
  # as setup.py does it
  ( cd "$OUT/src" && $PY -m cython -2 "optv/$b.pyx" -o "optv/$b.c" >"$b.log" 2>&1 || { cat "$b.log"; exit 1; }
    clang -g1 -O1 -fPIC -w -fno-omit-frame-pointer -fsanitize=address -I"$OUT/inc" -I"$REPO/liboptv/include" -I"$PYINC" -I"$NPINC" -c "optv/$b.c" -o "$b.o" &&
    objcopy --redefine-sym malloc=sim_malloc --redefine-sym calloc=sim_calloc --redefine-sym realloc=sim_realloc --redefine-sym free=sim_free --redefine-sym fopen=sim_fopen --redefine-sym fclose=sim_fclose "$b.o" &&
    clang -shared -fsanitize=address -o "$OUT/pkg/optv/$b.so" "$b.o" ) & pids+=($!)
done
clang++ -std=c++17 -g1 -O1 -Wall -Wno-unused-function -fno-omit-frame-pointer -fsanitize=address -DPYSITE="\"$SITE\"" -I"$PYINC" -I"$REPO/liboptv/include" -c "$SIM/py/pyglue.cpp" -o "$OUT/pyglue.o" & pids+=($!)
rc=0; for p in "${pids[@]}"; do wait $p || rc=1; done
[ $rc = 0 ] || exit 1
clang++ -fsanitize=address -g1 -rdynamic -o "$OUT/sim" "$OUT"/h/*.o "$OUT/pyglue.o" "$OUT/optv.o" -lpython3.12 -lm
