#!/bin/bash
# developer aid: bt.sh PROP N CHECK...: build, then triage the first N cases of each check
cd "$(dirname "$0")/.." || exit 1
p=$1 n=$2; shift 2
python3 build.py "$p" > /tmp/bt.$p.log 2>&1 || { grep -E "error|undefined" -A4 /tmp/bt.$p.log | head -${BT_LINES:-30}; exit 1; }
for c in "$@"; do echo "== $c"; timeout 800 python3 tools/triage.py "$p" "$c" 0 "$n" ${SEED:-} 2>&1 | cut -c1-${BT_W:-900} | tail -${BT_TAIL:-20}; done
