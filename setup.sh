#!/bin/sh
# Nothing to build: checks that the tools the checks need are there and that the specification parses.
cd "$(dirname "$0")/spec" || exit 2
mkdir -p ../evidence
for m in *Trace.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >/dev/null || exit 1
done
/opt/venv/bin/python -c "import networkx, numpy, pandas" || exit 1
