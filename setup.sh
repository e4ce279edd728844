#!/bin/bash
# Nothing needs compiling: parse every specification module and import the recorders once.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
cd spec
for m in Judge ObjectStoreGen ObjectStoreMC ObjectStoreTrace StructureMC; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
cd ..
PYTHONPATH=/repo:. PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c 'import harness.drivers; print("recorders import")'
