#!/bin/bash
# tools/tryseed.sh ID [notest]: try one planted bug in a scratch copy laid over /repo in a private mount namespace.
ID=$1; D=/verif/seeded/$ID; W=/tmp/wt_$ID
rm -rf "$W"; cp -a /repo "$W"
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
export PYTHONDONTWRITEBYTECODE=1
unshare -Urm bash -c "
mount --bind $W /repo; cd /repo
git config --global --add safe.directory /repo 2>/dev/null
echo \"[$ID] demo unpatched: \$(timeout 300 bash $D/demo.sh >/tmp/demo_$ID.a 2>&1; echo \$?)\"
git apply $D/patch.diff || { echo '[$ID] PATCH DOES NOT APPLY'; exit 1; }
bash /opt/vp/build.sh >/tmp/build_$ID.log 2>&1 || { echo '[$ID] BUILD FAILS'; exit 1; }
echo \"[$ID] demo patched: \$(timeout 300 bash $D/demo.sh >/tmp/demo_$ID.b 2>&1; echo \$?) \$(tail -1 /tmp/demo_$ID.b)\"
cd /verif; rc=0; ./check $PROP >/tmp/chk_$ID.log 2>&1 || rc=\$?
echo \"[$ID] check $PROP rc=\$rc \$(grep -c VIOLATION /tmp/chk_$ID.log) \$(grep VIOLATION /tmp/chk_$ID.log | head -1) \$(tail -1 /tmp/chk_$ID.log)\"
if [ -z '$2' ]; then cd /repo; T=\$(python3 -c \"import json;b=json.load(open('/opt/vp/BASELINE.json'));print(' or '.join(sorted(b['stable']))[:0])\")
PYTHONHASHSEED=0 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=600 tests/test_hsmm.py -o junit_family=xunit2 --junitxml=/tmp/j_$ID.xml >/tmp/t_$ID.log 2>&1
/usr/bin/python3 - <<P
import xml.etree.ElementTree as E,json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
bad=set()
for c in E.parse('/tmp/j_$ID.xml').iter('testcase'):
    if any(x.tag in('failure','error') for x in c): bad.add(c.get('classname').split('.')[-1]+'.'+c.get('name'))
br=[t for t in b if any(t.endswith(x) or x.replace('.','::') in t for x in bad)]
print('[$ID] stable broken:',br,'failing',len(bad))
P
fi
"
rm -rf "$W"
