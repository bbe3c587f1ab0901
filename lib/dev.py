#!/usr/bin/env python3
"""dev.py HARNESS [-t SEC] [-k TAG]... [-r] CASE...  : developer loop (explore, then replay any counterexample)"""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build, check
a = sys.argv[1:]
h = a.pop(0); t = 60; tags = []; cases = []; rep = False; xs = []; jobs = 8
while a:
    x = a.pop(0)
    if x == "-t": t = int(a.pop(0))
    elif x == "-k": tags.append(a.pop(0))
    elif x == "-r": rep = True
    elif x == "-j": jobs = int(a.pop(0))
    elif x == "-x": xs.append(a.pop(0))
    else: cases.append(x)
exe = build.symbolic_exe(h, extra_sources=check.STUBS + xs)
if not cases:
    src = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", h + ".cc")).read()
    import re
    cases = re.findall(r"^SYM_CASE\((\w+)\)", src, re.M)
os.makedirs("/tmp/dev", exist_ok=True); os.chdir("/tmp/dev")
for c in cases:
    j = check.run_case(exe, c, {"timeout": t, "maxviol": 6}, tags, "/tmp/dev/%s_%s.json" % (h, c), jobs)
    print("%-18s ex=%s runs=%d paths=%d asm=%d q=%d/%d/%d wall=%.1f maxq=%.1f nodes=%d ev=%d fns=%d reach=%s" % (c, j["exhausted"], j["runs"], j["paths"], j["assume_fail"], j["sat"], j["unsat"], j["unknown"], j["wall_s"], j["max_query_s"], j["max_nodes"], j["max_events"], len(j["functions"]), j["reach"]),
          {k: j[k] for k in ("limits", "diverge", "sem_mismatch", "stale", "dropped", "capped", "bad_workers", "pending") if j[k]}, j["leaks"] or "", j["limit_msgs"] or "")
    for v in j["violations"]:
        print("   !!", v["msg"], v["input"])
        if rep:
            for asan in (False, True):
                r = build.replay_exe(h, extra_sources=check.STUBS + xs, asan=asan)
                bad, rc, out = check.replay(r, c, v["input"])
                print("      replay asan=%s rc=%d %s" % (asan, rc, "REPRODUCED" if bad else "no"), [l for l in out.split("\n") if "REPLAY" in l or "ERROR: Addr" in l or "Exception:" in l][:6])
                if bad: break
