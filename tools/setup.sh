#!/bin/bash
# Nothing needs to be prepared: every check builds what it uses. This only makes
# sure that the tools are there and that the specifications parse.
set -e
cd "$(dirname "$0")/.."
python3 -c 'import sys; sys.path.insert(0, "tools"); import checks'
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
(cp -r harness "$S/h" && cd "$S/h" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o "$S/hx" .)
cd spec
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$S/sany" 2>&1 || { cat "$S/sany"; exit 1; }
done
echo ready
