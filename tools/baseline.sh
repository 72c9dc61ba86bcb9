#!/bin/bash
# Builds /repo and checks that every stable baseline test passes.
bash /opt/vp/build.sh >/tmp/vp-build.log 2>&1 || { tail -30 /tmp/vp-build.log; echo BUILD-FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/vp-o.json >/dev/null 2>&1
python3 - <<'P'
import json,sys
o=json.load(open('/tmp/vp-o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=set(b['stable'])-set(o['passed'])
print('missing',len(miss),sorted(miss)[:20],'failed',o['failed'][:10]); sys.exit(bool(miss))
P
