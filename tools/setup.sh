#!/bin/bash
# builds the compiler wrapper and the dependencies of the lemma crate
set -e
cd "$(dirname "$0")/.."
mkdir -p .cache evidence
(cd driver && cargo build --release --offline -q)
bash tools/dump.sh "$PWD/.cache/setup.json" c03
