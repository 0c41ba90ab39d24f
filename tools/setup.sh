#!/bin/bash
# Checks that the tools the monitors need are there (everything is built by the checks themselves).
set -e
cd "$(dirname "$(readlink -f "$0")")/.."
python3 --version
cargo --version
cargo +nightly --version
cargo +nightly miri --version
mkdir -p evidence work target
