#!/bin/bash
# Nothing to build: checks import the code under test straight from /repo. Verify the interpreters are there.
cd "$(dirname "$0")" || exit 1
for v in pb5 pb3; do /opt/venv-$v/bin/python -c "import opentelemetry.sdk" || exit 1; done
mkdir -p evidence out
