#!/bin/bash
# Nothing to compile: the target and the checks are Python.  Verify that the interpreter and the tree are usable.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
home="$(mktemp -d /tmp/verif.XXXXXXXX)" || exit 2
trap 'rm -rf "$home"' EXIT
mkdir -p "$home/.pfa"
HOME="$home" PYTHONPATH=/repo:. /opt/venv/bin/python -W ignore -c 'import titus.genpy, vlib.core, vlib.cases'
