#!/bin/bash
# build /repo and run its stable tests; prints any baseline test that no longer passes
bash /opt/vp/build.sh >/tmp/stable.build 2>&1 || { tail -20 /tmp/stable.build; echo BUILD-FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/stable.json >/tmp/stable.test 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/stable.json'))
bp=set(b.get('passed') or b.get('pass') or b.get('stable') or []); op=set(o.get('passed') or o.get('pass') or [])
m=sorted(bp-op); print('baseline',len(bp),'now',len(op),'missing',m)
import sys; sys.exit(1 if m else 0)
P
