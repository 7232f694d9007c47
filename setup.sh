#!/bin/bash
# Parses every TLA+ module; nothing else needs building (checks import /repo directly).
cd "$(dirname "$0")" || exit 2
d=$(mktemp -d); cp spec/*.tla "$d"/; cd "$d" || exit 2
rc=0
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$m.out" 2>&1 || { echo "FAILED $m"; tail -20 "$m.out"; rc=1; }
done
rm -rf "$d"
exit $rc
