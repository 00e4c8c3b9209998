#!/bin/bash
# The framework has no build products of its own: every check compiles what it
# needs from /repo's working tree.  This only verifies the tools and the specs.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence
for t in g++ bison flex tlc tla-sany java python3; do
  command -v "$t" >/dev/null || { echo "missing tool: $t"; exit 1; }
done
cd spec || exit 1
for m in *.tla; do
  o=$(tla-sany "$m" 2>&1) || { echo "$o" | tail -5; exit 1; }
done
echo "setup: ok"
