#!/bin/sh
# Nothing is compiled: check that the tools are there and that every specification parses.
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
T=$(mktemp -d)
cp spec/*.tla "$T"
for f in spec/*.tla; do
  (cd "$T" && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" > out.txt 2>&1) || { cat "$T/out.txt"; exit 1; }
done
rm -rf "$T"
mkdir -p evidence
echo setup ok
