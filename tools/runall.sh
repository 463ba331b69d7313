#!/bin/bash
# run every registered check (8 at a time), print one line per check
cd "$(dirname "$0")/.."
IDS=${*:-$(python3 -c "from engine.props import REGISTRY; print(*sorted(REGISTRY))")}
python3 -m engine.build >/dev/null
printf '%s\n' $IDS | xargs -P 6 -I{} bash -c 'o=$(timeout 900 python3 check.py {} quick 2>&1); r=$?; echo "{} rc=$r $(echo "$o" | grep -m1 "obligations" | cut -c1-160)"; [ $r = 0 ] || echo "$o" | grep -v obligations | cut -c1-200 | head -${LINES_MAX:-6}' | sort
