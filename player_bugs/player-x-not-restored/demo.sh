#!/bin/bash
# Assembles the player of the current tree in a scratch directory and runs its commands on py65.
here=$(cd "$(dirname "$0")" && pwd)
out=$(PYTHONDONTWRITEBYTECODE=1 VERIF_REPO=$PWD /opt/venv/bin/python -W ignore "$here/player.py" C17) || exit 2
echo "$out"
case "$out" in *FAIL*) exit 1;; esac
exit 0
