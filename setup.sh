#!/bin/sh
# Nothing to build: the specification is interpreted by TLC and the harness by Python.
# Verify that both toolchains are usable.
set -e
cd "$(dirname "$0")"
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY spec/Dyna.tla >/dev/null
/opt/venv/bin/python -c "import dyna"
mkdir -p .work evidence
