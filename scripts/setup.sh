#!/bin/bash
# Nothing to install: every check builds what it needs from /repo's working tree. This only makes
# sure that the tools the checks rely on are there.
set -e
cd "$(dirname "$0")/.."
cargo --version; rustc --version; go version
mkdir -p evidence target
