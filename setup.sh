#!/bin/bash
# Nothing to build: specifications and drivers are interpreted. Confirms the tools the checks need.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replays
test -f /opt/veriftools/tla/tla2tools.jar && java -version >/dev/null 2>&1 && /opt/venv/bin/python -c "import torch" || { echo "missing tools"; exit 1; }
for m in specs/*.tla; do test -s "$m" || exit 1; done
echo "setup ok"
