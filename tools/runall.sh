#!/bin/bash
# run every check once, in order; args: tier
cd "$(dirname "$0")/.."
for f in props/c[0-9]*.py; do id=$(basename $f .py | tr c C); /opt/venv/bin/python check.py $id ${1:-quick} 2>&1 | sed "s/^/$id: /"; done
