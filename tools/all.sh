#!/bin/bash
# run every check (or those given) and show only what is not quiet
cd "$(dirname "$0")/.."
ids=${*:-$(python3 -c "import json;print(*[c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('MANIFEST.json'))['checks']])" 2>/dev/null)}
printf '%s\n' $ids | xargs -P 6 -I{} sh -c 'o=$(python3 check.py {} quick 2>&1); rc=$?; echo "rc=$rc $(echo "$o" | grep -E "obligations|note:|violated|Error" | head -6 | cut -c1-260)"'
