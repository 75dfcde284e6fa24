#!/bin/bash
# Offline setup: nothing to install. Proves that the shim compiles and the code under test imports.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d "${TMPDIR:-/tmp}/swsim_setup.XXXXXX")
trap 'rm -rf "$scratch"' EXIT
gcc -O1 -shared -fPIC -o "$scratch/simdisk.so" "$here/sim/simdisk.c" -ldl -lpthread
mkdir -p "$here/evidence"
LD_PRELOAD="$scratch/simdisk.so" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import swiftsimio, h5py, numba; print(swiftsimio.__file__)'
