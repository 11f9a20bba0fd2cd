#!/bin/bash
# Builds the framework from the committed files, offline: compiles the TLC operator overrides.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
javac -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -d build java/Fix.java
/opt/venv/bin/python -c "import torch" >/dev/null
