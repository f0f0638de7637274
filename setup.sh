#!/bin/bash
# Installs Hypothesis for /opt/venv's Python into /verif/.site (git-ignored), offline.
set -u
cd "$(dirname "$0")"
if [ ! -d .site/hypothesis ]; then
  rm -rf "$PWD/.site"
  PIP_NO_INDEX=1 PIP_DISABLE_PIP_VERSION_CHECK=1 PIP_ROOT_USER_ACTION=ignore PIP_NO_CACHE_DIR=1 \
    /opt/venv/bin/python -m pip install -q --no-deps --target .site --find-links /opt/veriftools/wheels hypothesis sortedcontainers \
    || echo "setup: wheel install failed, the runner falls back to /opt/veriftools/pyvenv" >&2
fi
/opt/venv/bin/python run.py --selftest
