#!/bin/bash
# nothing to build: the checks encode /repo's source on every run; make sure that the tools are there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
