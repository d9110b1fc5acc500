#!/bin/bash
# usage: seedtest.sh ID [notest] : in a private mount namespace with a patched copy at /repo, runs the demo (also on
# the unpatched copy), the property's check and the tests (compared with the stable list)
ID=$1; D=/verif/seeded/$ID; W=/tmp/seed_$ID
if [ -z "$IN_NS" ]; then
  rm -rf "$W"; cp -a /repo "$W" || exit 1
  IN_NS=1 unshare -m "$0" "$@"
  rm -rf "$W"; exit
fi
mount --bind "$W" /repo || exit 1
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo
bash $D/demo.sh >/tmp/seed_$ID.base 2>&1; echo "$ID ($prop) demo base rc=$?"
git -C /repo apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
bash $D/demo.sh >/tmp/seed_$ID.bug 2>&1; echo "demo bug rc=$?"
if [[ "$*" != *nocheck* ]]; then ( cd /verif && ./check $prop quick 2>&1 | grep -v KNOWN | tail -3 | cut -c1-300 ); fi
if [[ "$*" != *notest* ]]; then
  bash /opt/vp/test.sh /tmp/seed_$ID.json >/dev/null 2>&1
  python3 - <<XX
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
r=json.load(open('/tmp/seed_$ID.json'))
p=set(r.get('passed',r if isinstance(r,list) else []))
print('stable tests lost:', sorted(s-p))
XX
fi
