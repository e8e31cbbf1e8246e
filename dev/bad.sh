#!/bin/bash
# Runs a check and prints its failures, shortened.
cd "$(dirname "$0")/.." && ./check "$@" --list > /tmp/o.out 2>&1; grep '^BAD\|^ERROR\|^P[0-9]*:\|^Trace\|^KNOWN' /tmp/o.out | sed -E 's#src/pyinterp/core/(include/pyinterp|module)/##; s/pyinterp:://g' | cut -c1-${W:-200} | head -${N:-50}
