#!/bin/bash
# Offline set-up: everything needed is committed (vendor/ holds Hypothesis); just verify that it imports.
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence" "$here/replays"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/vendor:$here/lib" /opt/venv/bin/python -c "import hypothesis, pbt; print('hypothesis', hypothesis.__version__)"
