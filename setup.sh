#!/bin/bash
# Parse all specifications (nothing else to build) and check that the tools are there.
cd "$(dirname "$0")/specs" || exit 1
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
for f in *.tla; do
    java -Djava.io.tmpdir="$T" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > "$T/out" 2>&1 \
        || { cat "$T/out"; echo "cannot parse $f"; exit 1; }
done
mkdir -p ../evidence ../replays
/opt/venv/bin/python -c "import numpy, scipy, spharm, xarray, matplotlib"
