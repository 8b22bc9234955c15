#!/bin/sh
# usage: fixcommit.sh "message" -- runs stable tests, then commits /repo
cd /repo || exit 1
bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1
/opt/venv/bin/python - <<'P' || exit 1
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def names(d):
    for k in ('passed','stable','tests','pass'):
        if k in d: return set(d[k]) if not isinstance(d[k],dict) else set(d[k])
    raise SystemExit(repr(list(d)))
miss=names(b)-names(o)
print('missing:',miss)
raise SystemExit(1 if miss else 0)
P
git commit -qam "$1" && git log --oneline | head -1
