#!/bin/bash
# Checks that what the monitors need is installed. Nothing is fetched; each check builds what it needs itself.
set -e
cd "$(dirname "$0")"
for t in g++ clang++ python3; do command -v $t >/dev/null || { echo "missing: $t"; exit 1; }; done
mkdir -p evidence .build out
echo ok
