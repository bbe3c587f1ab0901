#!/usr/bin/env python3
"""seedtest.py [-n] [-c C01,C02] ID... : for each planted change, in a scratch copy of /repo mounted at /repo in a private
mount namespace: applies, builds, passes the stable tests, demo fails with it, demo passes without it; then runs the
property's check (or those of -c) and says whether it raises the alarm.  -n: skip the tests/demo part."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INNER = r'''
set -u
mount --bind "$W/repo" /repo || exit 90
cd /repo
git apply "$S/patch.diff" || { echo "NOAPPLY"; exit 91; }
if [ "$FULL" = 1 ]; then
  bash /opt/vp/build.sh > $W/build.log 2>&1 || { echo NOBUILD; tail -20 $W/build.log; exit 92; }
  bash /opt/vp/test.sh $W/t.json > $W/test.log 2>&1
  python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; p=set(json.load(open("$W/t.json"))["passed"])
m=[x for x in b if x not in p]
print("TESTS", "ok" if not m else "FAIL %s" % m[:5])
P
  mkdir -p $W/demo; cp -r $S/. $W/demo/; rm -f $W/demo/patch.diff $W/demo/meta.json
  (cd /repo; timeout 300 bash $W/demo/demo.sh > $W/demo1.log 2>&1); echo "DEMO patched rc=$?"; tail -3 $W/demo1.log
fi
for c in $CHECKS; do
  (cd $V; VERIF_BUILD=$W/vb VERIF_EVID=$W/evid timeout 900 python3 check.py $c quick > $W/check_$c.log 2>&1); echo "CHECK $c rc=$? $(grep -c '^VIOLATION' $W/check_$c.log) $(grep -m1 '^violation in' $W/check_$c.log) $(tail -1 $W/check_$c.log)"
done
if [ "$FULL" = 1 ]; then
  git apply -R "$S/patch.diff"
  bash /opt/vp/build.sh > $W/build2.log 2>&1
  (cd /repo; timeout 300 bash $W/demo/demo.sh > $W/demo2.log 2>&1); echo "DEMO clean rc=$?"; tail -3 $W/demo2.log
fi
'''
def main():
    a = sys.argv[1:]
    full, checks, ids = True, None, []
    while a:
        x = a.pop(0)
        if x == "-n": full = False
        elif x == "-c": checks = a.pop(0).split(",")
        else: ids.append(x)
    for i in ids:
        S = os.path.join(os.environ.get("SEEDDIR", os.path.join(V, "seeded")), i)
        W = "/tmp/seed_" + i
        shutil.rmtree(W, ignore_errors=True)
        os.makedirs(W)
        subprocess.run(["cp", "-a", "/repo", W + "/repo"], check=True)
        if os.path.isdir(V + "/build"):
            subprocess.run(["cp", "-a", V + "/build", W + "/vb"], check=True)
        cs = checks or [json.load(open(S + "/meta.json"))["property"]]
        env = dict(os.environ, W=W, S=S, V=V, FULL="1" if full else "0", CHECKS=" ".join(cs), VERIF_SEED="1", VERIF_TIER="quick")
        print("==", i, flush=True)
        subprocess.run(["unshare", "-Urm", "bash", "-c", INNER], env=env)
        subprocess.run(["bash", "-c", "for f in %s/*.log; do cp $f /tmp/seedlog_%s_$(basename $f); done" % (W, i)])
        shutil.rmtree(W, ignore_errors=True)
main()
