#!/bin/bash
# run several checks in quick (or $TIER) and show the tail of each
for p in "$@"; do CHECK_STRICT=1 python3 /verif/harness/check.py $p ${TIER:-quick} > /tmp/many.$p 2>&1; echo "rc=$? $(tail -1 /tmp/many.$p | cut -c1-200)"; grep -A1 -m4 VIOLATION /tmp/many.$p; done
