"""helpers to write a planted change from /repo's working tree: sub(path, old, new), save(id, property, needs, breaks)"""
import subprocess, json, os, shutil
R = os.environ.get("ODC_REPO", "/repo")
S = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/seeded"
def sub(p, a, b, after=None):
    p = R + "/" + p
    t = open(p).read(); i = t.index(after) if after else 0
    assert a in t[i:], (p, a)
    open(p, "w").write(t[:i] + t[i:].replace(a, b, 1))
def save(i, prop, needs, breaks):
    d = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE, text=True).stdout
    os.makedirs(S + "/" + i, exist_ok=True)
    open("%s/%s/patch.diff" % (S, i), "w").write(d)
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open("%s/%s/meta.json" % (S, i), "w"))
    assert d
