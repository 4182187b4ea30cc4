#!/bin/sh
# Nothing to build: checks that the tools are there and that the specifications parse.
set -e
cd "$(dirname "$0")/../spec"
test -x /opt/venv/bin/python
for m in *.tla; do
  tla-sany "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo ready
