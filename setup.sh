#!/bin/bash
# Nothing to build ahead of time: every check compiles its harness against /repo's headers.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
g++ --version | head -1
python3 -c 'import checks_config; print(len(checks_config.CHECKS), "checks configured")'
