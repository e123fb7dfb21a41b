#!/bin/bash
# nothing to install: checks that the offline tools answer and warms the replay runner's build directory
set -e
cd "$(dirname "$0")"
mkdir -p .build evidence
python3-vt -c "import z3; print('z3', z3.get_version_string())"
python3-vt -m compileall -q engine
bash build_runner.sh release /verif/.build/warm "--features sets" || true
rm -rf /verif/.build/warm
