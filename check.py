#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   -- decides one property against /repo's current tree.
exit 0: held on everything explored; 1: violation (line "VIOLATION property=<id> replay=<path>"); 2: the check itself failed."""
import json, os, re, shutil, subprocess, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build
import props

STUBS = [os.path.join(VERIF, "harness", f) for f in ("md5stub.cc", "eckitstub.cc")]
TRUSTED = ["clang 18 front end and optimiser up to the instrumented IR", "engine/SymPass.cpp + symrt.cpp translation of that IR to bit-vector/floating-point terms (every operation is also executed concretely and compared)",
           "Z3 5.3.2", "libstdc++, libc, libeckit (executed concretely, listed stubs)"]


def load_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) tag=(\S+) (.*)", line.strip())
        if m:
            out.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return out


def run_case(exe, case, opt, tags, outfile, jobs):
    cmd = [exe, "--case", case, "--jobs", str(jobs), "--timeout", str(opt.get("timeout", 60)), "--qtimeout", str(opt.get("qtimeout", 20000)),
           "--run-timeout", str(opt.get("run_timeout", 20)), "--maxviol", str(opt.get("maxviol", 4)), "--out", outfile]
    for t in tags:
        cmd += ["--known", t]
    if os.path.exists(outfile):
        os.unlink(outfile)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=opt.get("timeout", 60) * 2 + 120)
    if not os.path.exists(outfile):
        raise RuntimeError("engine produced no report for %s:\n%s" % (case, r.stdout.decode(errors="replace")[-3000:]))
    j = json.loads(open(outfile, errors="replace").read(), strict=False)
    j["stdout_tail"] = r.stdout.decode(errors="replace")[-500:]
    return j


def replay(exe, case, hexin):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=66:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0", ASAN_SYMBOLIZER_PATH="/usr/lib/llvm-18/bin/llvm-symbolizer")
    try:
        r = subprocess.run([exe, "--case", case, "--input", hexin], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90, env=env)
        rc, out = r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        rc, out = -14, (e.stdout or b"").decode(errors="replace") + "\nTIMEOUT"
    bad = rc == 1 or rc < 0 or rc == 66 or (rc not in (0, 2, 3, 4))
    return bad, rc, out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = props.PROPS[pid]
    findings = load_findings().get(pid, [])
    tags = [f[0] for f in findings]
    jobs = build.JOBS
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": {}, "assumptions": list(P.get("assumptions", [])), "wall_s": 0.0, "violations": 0}
    cases, tot = [], dict(states=0, transitions=0, queries=0, solver_s=0.0, runs=0, sat=0, unsat=0, unknown=0)
    fns, samples, violations, unconfirmed, problems, known_hit = set(), [], [], [], [], {}
    budget = P.get("budget", {}).get(tier, 420 if tier == "quick" else 780)
    scratch = os.path.join(build.BUILD, "run", pid)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    os.chdir(scratch)
    todo = []
    for h in P["harness"]:
        lst = list(h["quick"]) + (list(h.get("thorough", [])) if tier == "thorough" else [])
        todo.append((h, lst))
    tb = time.time()
    exes = {}
    for h, lst in todo:
        exes[h["name"]] = build.symbolic_exe(h["name"], extra_sources=STUBS + h.get("extra", []))
    build_s = time.time() - tb
    for h, lst in todo:
        for c in lst:
            opt = dict(h.get("opt", {}))
            if isinstance(c, (tuple, list)):
                opt.update(c[1]); c = c[0]
            left = budget - (time.time() - t0)
            if left < 5:
                problems.append("%s: not run, time budget used up" % c)
                cases.append({"case": c, "exhausted": False, "skipped": True})
                continue
            opt["timeout"] = min(opt.get("timeout", 60 if tier == "quick" else 400), left)
            try:
                j = run_case(exes[h["name"]], c, opt, tags, os.path.join(scratch, c + ".json"), jobs)
            except (RuntimeError, ValueError, subprocess.TimeoutExpired) as e:
                problems.append("%s: no result from the engine: %s" % (c, str(e)[-300:]))
                cases.append({"case": c, "exhausted": False, "skipped": True})
                continue
            info = {k: j[k] for k in ("case", "exhausted", "wall_s", "runs", "paths", "assume_fail", "sat", "unsat", "unknown", "cached", "solver_s", "max_query_s", "input_bytes", "reach")}
            info["bound"] = h.get("bounds", {}).get(c, "")
            for k in ("limits", "diverge", "sem_mismatch", "stale", "dropped", "capped", "bad_workers"):
                if j.get(k):
                    info[k] = j[k]
                    problems.append("%s: %s=%s" % (c, k, j[k]))
            if j["unknown"]:
                problems.append("%s: %d solver queries undecided" % (c, j["unknown"]))
            if not j["exhausted"] and not j["violations"]:
                problems.append("%s: exploration not exhausted" % c)
            tot["states"] += j["paths"]; tot["transitions"] += j["events"]; tot["runs"] += j["runs"]
            for k in ("sat", "unsat", "unknown"):
                tot[k] += j[k]
            tot["queries"] += j["sat"] + j["unsat"] + j["unknown"]; tot["solver_s"] += j["solver_s"]
            fns.update(j["functions"])
            for s in j["samples"][:2]:
                if len(samples) < 12:
                    samples.append({"case": c, "input_hex": s})
            for l in j["leaks"]:
                problems.append("%s: symbolic data reaches uninstrumented %s" % (c, l if isinstance(l, str) else json.dumps(l)))
            need = h.get("reach", {}).get(c, h.get("reach", {}).get("*", ["done"]))
            miss = [n for n in need if not j["reach"].get(n)]
            for tag in [k for k in j["reach"] if k.startswith("known:")]:
                known_hit[tag[6:]] = known_hit.get(tag[6:], 0) + j["reach"][tag]
            cases.append(info)
            print("%s %-22s exhausted=%s paths=%d queries=%d wall=%.1fs %s" % (pid, c, j["exhausted"], j["paths"], j["sat"] + j["unsat"] + j["unknown"], j["wall_s"], "; ".join(v["msg"] for v in j["violations"])), flush=True)
            conf = False
            seen = set()
            for v in j["violations"]:
                hit = None
                for asan in (False, True):
                    rexe = build.replay_exe(h["name"], extra_sources=STUBS + h.get("extra", []), asan=asan)
                    bad, rc, out = replay(rexe, c, v["input"])
                    if bad:
                        hit = (asan, rc, out); break
                if hit:
                    rp = os.path.join(build.BUILD, "replay"); os.makedirs(rp, exist_ok=True)
                    f = os.path.join(rp, "%s_%s_%d.txt" % (pid, c, len(violations)))
                    open(f, "w").write("property: %s\ncase: %s\nmessage: %s\ninput: %s\nreproduce: %s --case %s --input %s\nbuild: %s\nexit code: %d\n--- output ---\n%s\n" % (
                        pid, c, v["msg"], v["input"], rexe, c, v["input"], "g++ -O1 -fsanitize=address" if hit[0] else "g++ with the project's release flags", hit[1], hit[2][-6000:]))
                    violations.append((c, v["msg"], f)); conf = True
                    break
                else:
                    unconfirmed.append({"case": c, "msg": v["msg"], "input": v["input"], "replay": out[-400:]})
            if miss and not conf and not j["violations"]:
                if j["exhausted"]:
                    # nothing that satisfies the preconditions gets to the assertion any more: shown by exhaustive exploration
                    problems.append("%s: reachability witness missing: %s" % (c, ",".join(miss)))
                    f = None
                    for s in j["samples"][:1]:
                        rexe = build.replay_exe(h["name"], extra_sources=STUBS + h.get("extra", []))
                        bad, rc, out = replay(rexe, c, s)
                        if h.get("must_reach", True) and not any(("REPLAY-REACH " + n) in out for n in miss):
                            rp = os.path.join(build.BUILD, "replay"); os.makedirs(rp, exist_ok=True)
                            f = os.path.join(rp, "%s_%s_reach.txt" % (pid, c))
                            open(f, "w").write("property: %s\ncase: %s\nexhaustive exploration of the inputs never reaches: %s\nsample input: %s\n--- output ---\n%s\n" % (pid, c, miss, s, out[-4000:]))
                    if f:
                        violations.append((c, "behaviour required by the property is unreachable: " + ",".join(miss), f))
                else:
                    problems.append("%s: reachability witness not found within the budget: %s" % (c, ",".join(miss)))
            if violations and tier == "quick":
                break
        if violations and tier == "quick":
            break
    dem = subprocess.run(["c++filt", "-p"], input="\n".join(sorted(fns)), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    own = sorted({d for d in dem if d.startswith("odc::") or d.startswith("odc_") or d.startswith("eckit::sql::") or " odc::" in d})
    complete = all(c.get("exhausted") for c in cases) and not problems
    ev["coverage"] = {
        "states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["runs"], "samples": samples or [{"case": "none"}],
        "states_meaning": "complete feasible paths (each a distinct path condition over the symbolic inputs)", "transitions_meaning": "symbolic branch/concretisation decisions on those paths",
        "traces_meaning": "every solver model is executed on the compiled code from /repo and its path compared with the prediction",
        "queries": {"total": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"]}, "solver_s": round(tot["solver_s"], 3), "build_s": round(build_s, 1),
        "exhaustive": bool(complete), "inconclusive": problems, "unconfirmed_counterexamples": unconfirmed,
        "bounds": P.get("bounds", ""), "outside_bounds": P.get("outside", ""), "cases": cases, "functions_encoded": own, "functions_encoded_count": len(own), "trusted_base": TRUSTED,
        "stubs": P.get("stubs", "eckit::MD5 (model), DataHandle (in-memory), logging/ostream formatting (concrete, not interpreted)"), "known_findings_hit": known_hit}
    ev["violations"] = len(violations)
    ev["wall_s"] = round(time.time() - t0, 2)
    EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    for p in problems:
        print("INCONCLUSIVE:", p)
    for u in unconfirmed:
        print("UNCONFIRMED (does not reproduce on the plain build):", u["case"], u["msg"], u["input"])
    for tag, text in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    for c, msg, f in violations:
        print("violation in case %s: %s" % (c, msg))
        print("VIOLATION property=%s replay=%s" % (pid, f))
    print("%s %s: %d paths, %d queries, solver %.1fs, wall %.1fs, exhaustive=%s" % (pid, tier, tot["states"], tot["queries"], tot["solver_s"], ev["wall_s"], complete))
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
