#!/bin/bash
# Offline set-up: nothing to download or build; make sure the toolchain works.
cd "$(dirname "$0")" || exit 1
T=/opt/veriftools/tla
[ -f $T/tla2tools.jar ] && [ -f $T/CommunityModules-deps.jar ] || { echo "no TLC"; exit 1; }
java -version >/dev/null 2>&1 || { echo "no java"; exit 1; }
/opt/venv/bin/python -c 'import rsciio, numpy, dask, h5py' || exit 1
