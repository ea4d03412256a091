#!/bin/bash
# Nothing has to be prepared: every check builds what it needs from /repo's working tree.
# Fails early when a tool is missing.
set -e
cd "$(dirname "$0")"
command -v g++ java javac python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p .build replays evidence
