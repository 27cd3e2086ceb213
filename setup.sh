#!/bin/bash
# Nothing is built: the specifications are interpreted by TLC, the harness by Python. Verifies that both are present.
set -e
cd "$(dirname "$0")"
java -version 2>/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=harness /opt/venv/bin/python -B -c "import engine, common"
mkdir -p evidence replays
