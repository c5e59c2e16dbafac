#!/bin/bash
# nothing to build: the checks import the package from /repo; verify that the
# interpreter and the reconstructed basis definitions are usable
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore mc/selfcheck.py
