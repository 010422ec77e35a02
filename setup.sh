#!/bin/bash
# Nothing to install: every check builds what it needs, offline, from /repo and /verif.
# Building once here only fails early if the toolchain is missing.
set -eu
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
cargo kani --version
python3 -c "import sys; sys.path.insert(0, 'lib'); import specs; print(len(specs.SPECS), 'checks')"
