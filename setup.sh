#!/bin/bash
# Offline: put Hypothesis (from the local wheelhouse) in /verif/.deps.  The check falls
# back to the copy in the tooling venv when this has not been run.
cd "$(dirname "$0")" || exit 2
[ -x /opt/venv/bin/python ] || { echo "no /opt/venv/bin/python" >&2; exit 2; }
if [ ! -d .deps/hypothesis ]; then
  /opt/venv/bin/python -m pip install -q --no-index --no-deps --find-links /opt/veriftools/wheels \
    --target .deps hypothesis sortedcontainers attrs >/dev/null 2>&1 || \
  /opt/venv/bin/python -m pip install -q --no-index --find-links /opt/veriftools/wheels \
    --target .deps hypothesis >/dev/null 2>&1 || rm -rf /verif/.deps
fi
./check --selftest
