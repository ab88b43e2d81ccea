#!/bin/bash
# Offline, nothing to build: make sure that the tools answer and every specification parses.
cd "$(dirname "$0")" || exit 1
for f in specs/*.tla; do
  (cd specs && tla-sany "$(basename "$f")") > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
/opt/venv/bin/python -c 'import numpy, scipy' || exit 1
mkdir -p evidence replays
echo ok
