#!/bin/sh
# Nothing to build: check that the tools and the specification are in place.
cd "$(dirname "$0")/.." || exit 3
mkdir -p evidence out
cd spec || exit 3
for m in *.tla; do
  o=$(java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" 2>&1) || { echo "$m:"; echo "$o" | tail -20; exit 4; }
done
echo ready
