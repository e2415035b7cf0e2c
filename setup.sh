#!/bin/bash
# Offline sanity of the framework: the specifications parse, the Python compiles, the tools are there.
set -e
cd "$(dirname "$0")"
python3 -m compileall -q lib tools check.py >/dev/null
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for f in spec/*.tla; do
  (cd spec && java -cp $J tla2sany.SANY "$(basename "$f")" >/tmp/sany.$$ 2>&1) || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
which g++ cmake >/dev/null
echo ready
