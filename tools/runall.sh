#!/bin/bash
# run every claimed check (8 at a time); prints one line each
cd "$(dirname "$0")/.."
export PYTHONDONTWRITEBYTECODE=1
ls psa/checks/c*.py | sed 's/.*c\([0-9]*\)\.py/C\1/' | xargs -P 7 -I{} bash -c 's=$(date +%s); o=$(timeout 900 python3 check.py {} --tier quick 2>&1); r=$?; echo "{} exit $r $(( $(date +%s)-s ))s $(echo "$o" | tail -1 | cut -c1-160)"' | sort
