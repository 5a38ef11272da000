#!/bin/bash
# nothing to build: the package is pure Python and is imported from /repo by every check
set -e
test -x /opt/venv/bin/python
test -d "${VERIF_REPO:-/repo}/pycomlink"
mkdir -p "$(dirname "$(realpath "$0")")/evidence"
