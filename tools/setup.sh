#!/bin/bash
# Everything is built by the checks themselves, from the current tree of /repo;
# this only makes sure that the tools they need are there.
set -e
cd "$(dirname "$0")/.."
for tool in gcc g++ clang clang++ cmake ninja python3 python3-vt; do
    command -v "$tool" >/dev/null || { echo "$tool is missing" >&2; exit 1; }
done
mkdir -p .build evidence replays
python3 -c "import sys; sys.path.insert(0, '.'); from framework import registry; print(len(registry.CHECKS), 'checks')"
python3-vt -c "import hypothesis; print('hypothesis', hypothesis.__version__)"
