#!/bin/bash
# Run in the repository after its build: exit 0 when the behaviour holds.
exec /opt/veriftools/pyvenv/bin/python3 "$(dirname "$(readlink -f "$0")")/demo.py"
