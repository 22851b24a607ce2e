#!/bin/bash
# Builds the TLC override for spec/Real64.tla into build/classes (git-ignored).
set -e
cd "$(dirname "$0")"
mkdir -p build/classes
javac -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -d build/classes java/Real64.java
echo "setup ok"
