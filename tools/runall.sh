#!/bin/bash
# all checks in parallel; prints the summary line and anything violated
cd "$(dirname "$0")/.."
ls checks/c[0-9][0-9].py | sed 's/.*c\([0-9]*\).py/C\1/' | xargs -P 8 -I{} sh -c 'timeout 900 python3-vt run.py {} > /tmp/ra_{}.txt 2>&1; echo "$? $(head -1 /tmp/ra_{}.txt | cut -c1-200)"' | sort -k2
