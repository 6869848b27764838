#!/bin/bash
# usage: tools/seed.sh <id> : takes the change in /tmp/sd (a copy of /repo) and the program /tmp/seed_main.rs,
# and keeps them as seeded/<id> after having confirmed that the change builds, passes the tests, and that
# the program notices it. meta.json comes from the variables PROP, NEEDS and BREAKS.
set -u
id=$1
here=$(cd "$(dirname "$0")/.." && pwd)
d=$here/seeded/$id
mkdir -p "$d"
git -C /tmp/sd diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
cp "$here"/tools/demo/demo.sh "$here"/tools/demo/demo.lock "$here"/tools/demo/engine.rs "$d/"
cp "$here"/mc/src/img.rs "$here"/mc/src/disk.rs "$d/"
[ "${NOSTD:-}" ] && cp "$here/tools/demo/demo-nostd.sh" "$d/demo.sh"
{ echo '#![allow(dead_code)]'; echo 'mod disk; mod engine; mod img;'; cat /tmp/seed_main.rs; } > "$d/main.rs"
PROP=$PROP NEEDS=$NEEDS BREAKS=$BREAKS python3 -c 'import json,os;print(json.dumps({"property":os.environ["PROP"],"needs":os.environ["NEEDS"],"what_it_breaks":os.environ["BREAKS"]},indent=1))' > "$d/meta.json"
# only lines of the original repository may change
(cd /tmp/sd && python3 - <<'P'
import subprocess,re,sys
base=subprocess.run(['git','rev-list','--max-parents=0','HEAD'],capture_output=True,text=True).stdout.strip()
bad=0;cur=None
for l in subprocess.run(['git','diff','-U0'],capture_output=True,text=True).stdout.splitlines():
    if l.startswith('--- a/'): cur=l[6:]
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m and cur:
        s,n=int(m[1]),int(m[2] or 1)
        if n==0: continue
        o=subprocess.run(['git','blame','-l','-L',f'{s},{s+n-1}','HEAD','--',cur],capture_output=True,text=True).stdout
        for x in o.splitlines():
            if not x.lstrip('^').startswith(base[:30]): print('not original:',x[:20],x[60:]); bad=1
sys.exit(bad)
P
) || echo "WARNING: touches lines of our own fixes"
echo "clean:"; (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/seed_clean.log 2>&1); c=$?
tail -3 /tmp/seed_clean.log
git -C /repo apply "$d/patch.diff" || exit 1
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 || { echo "does not build"; tail -20 /tmp/seed_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/seed_out.json > /tmp/seed_test.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/seed_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def passed(x):
    for k in ('passed','pass','stable'):
        if isinstance(x,dict) and k in x: return set(x[k])
    return set(x) if isinstance(x,list) else set()
print('tests missing:', sorted(passed(b)-passed(o)) if passed(b) else list(b)[:5])
P
(cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/seed_bug.log 2>&1); p=$?
tail -3 /tmp/seed_bug.log
echo "demo: unchanged $c, changed $p"
if [ "${CHECK:-1}" = 1 ]; then for k in ${CHECKS:-$PROP}; do bash "$here/check.sh" "$k" quick 2>/dev/null | grep -E 'VIOLATION|held|PASS' | head -2; done; fi
