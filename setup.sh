#!/bin/bash
# nothing to build: check that the toolchain is there and that every specification parses
cd "$(dirname "$0")" || exit 1
chmod +x run.sh
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cd spec || exit 1
for m in MC_*.tla; do
  java -cp "$CP" tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1
  if grep -q -E 'Errors: [1-9]|Could not|Fatal|\*\*\* Abort' /tmp/sany.$$; then cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; fi
done
rm -f /tmp/sany.$$
/opt/venv/bin/python -c 'import numpy, scipy' || exit 1
echo setup ok
