#!/bin/bash
# Builds the harness once, offline (every check builds what it needs itself, too).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
cd harness && cargo build --release --offline --target-dir ../build/harness
