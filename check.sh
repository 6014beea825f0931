#!/bin/bash
# check.sh <property>: decide one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
exec /opt/veriftools/pyvenv/bin/python3 -u vc/check.py "$@"
