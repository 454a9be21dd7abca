#!/bin/sh
# Nothing is compiled: the checks are Python and import soynlp from /repo's working tree.
cd "$(dirname "$0")" || exit 1
PYTHONPATH="$(pwd)" /opt/venv/bin/python -W ignore -B -c "
from mc import core
core.load_soynlp()
import soynlp
print('soynlp', soynlp.__version__, 'from', soynlp.__file__)"
