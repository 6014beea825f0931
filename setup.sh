#!/bin/bash
cd "$(dirname "$0")" || exit 2
exec /opt/veriftools/pyvenv/bin/python3 -u vc/build.py
