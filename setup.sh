#!/bin/bash
# Nothing to build: the library and the monitors are Python.  Checks that both import.
cd "$(dirname "$0")" || exit 1
PYTHONPATH=/repo:$PWD PYTHONDONTWRITEBYTECODE=1 DIFF_DIFF_BACKEND=python MPLBACKEND=Agg \
  /opt/venv/bin/python -c "import diff_diff, mon.core, mon.gen, mon.refs; print('ok', diff_diff.__version__)"
