#!/bin/bash
# Nothing to compile: the checks import /repo's working tree directly. Sanity only.
cd "$(dirname "$0")" && /opt/venv/bin/python -c "import sys; sys.path.insert(0, '.'); import mc.core" && mkdir -p evidence && echo ok
