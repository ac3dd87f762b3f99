#!/bin/bash
# builds the TLC operator overrides and checks that they agree with the TLA+ text
set -e
cd "$(dirname "$0")"
mkdir -p build/cls evidence
javac -cp /opt/veriftools/tla/tla2tools.jar -d build/cls java/*.java
. /opt/vp/env.sh
PYTHONPATH=harness exec "$PY" harness/agree.py
