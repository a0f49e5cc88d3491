#!/bin/bash
# Nothing to build: the checks are Python run by the repository's interpreter.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
exec /opt/venv/bin/python -W ignore -c 'import numpy, scipy, matplotlib; import mc.core, mc.model, mc.signals'
