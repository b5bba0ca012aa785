#!/bin/bash
# k.sh FILTER...: run Kani on the harnesses matching, showing failures only (development aid)
rm -f /tmp/kj.json; cd /verif/harness; export CARGO_NET_OFFLINE=true
a=(); for h in "$@"; do a+=(--harness "$h"); done
timeout 1500 cargo kani --lib -Z unstable-options -Z stubbing --no-assertion-reach-checks "${a[@]}" -j ${J:-8} --output-format terse --export-json /tmp/kj.json --harness-timeout 600s > /tmp/ko.txt 2>&1
grep -E "^error" -A12 /tmp/ko.txt | head -60
python3 - <<'P'
import json,os
try: d=json.load(open('/tmp/kj.json'))
except Exception as e: print(e); raise SystemExit
for r in d['verification_results']['results']:
    bad=[c for c in r['checks'] if c['status'].lower() not in('success','unreachable','satisfied')]
    print(r['harness_id'], r['status'], round(r['duration_ms']/1000,1), len(r['checks']))
    for c in bad[:6]: print('    ',c['status'],c['description'],c['function'],(c.get('location')or{}).get('file'),(c.get('location')or{}).get('line'))
print(d['verification_results']['summary'])
P
rm -f /tmp/kj.json
