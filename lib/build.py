"""Builds the engine, the instrumented odc objects and harness executables from /repo's current tree."""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ODC_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
ENG = os.path.join(VERIF, "engine")
ECKIT = "/opt/odc-deps/lib/python3.12/site-packages/eckitlib"
LLVM = "/usr/lib/llvm-18"
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def hfile(p, cache={}):
    try:
        st = os.stat(p)
    except OSError:
        return "missing"
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in cache:
        with open(p, "rb") as f:
            cache[k] = hashlib.sha1(f.read()).hexdigest()
    return cache[k]


def parse_dep(path):
    with open(path) as f:
        t = f.read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return [x for x in re.split(r"(?<!\\)\s+", t) if x]


def compile_cached(src, obj, cmd, extra=()):
    """cmd without -o/-MF; rebuilds when any file the last compile read has changed."""
    stamp = obj + ".json"
    key = hashlib.sha1((" ".join(cmd) + "|" + "|".join(hfile(e) for e in extra)).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(stamp):
        try:
            s = json.load(open(stamp))
            if s["key"] == key and all(hfile(p) == h for p, h in s["deps"].items()):
                return obj
        except Exception:
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = obj + ".d"
    sh(cmd + ["-MD", "-MF", dep, "-o", obj])
    deps = {p: hfile(p) for p in parse_dep(dep) if not p.startswith("/usr/")}
    json.dump({"key": key, "deps": deps}, open(stamp, "w"))
    return obj


def par(fs, jobs=JOBS):
    with ThreadPoolExecutor(jobs) as ex:
        return [f.result() for f in [ex.submit(f) for f in fs]]


PREEMPT = {"sym": ["-DSYM_PREEMPT"], "real": ["-DSYM_PREEMPT", "-DSYM_PREEMPT_ONLY"]}


def preempt_plugin(kind):
    """variant of the pass that adds preemption points (with or without symbolic instrumentation)"""
    d = os.path.join(BUILD, "engine")
    os.makedirs(d, exist_ok=True)
    plug = os.path.join(d, "Preempt_%s.so" % kind)
    llvmflags = sh([LLVM + "/bin/llvm-config", "--cxxflags"]).split()
    compile_cached(ENG + "/SymPass.cpp", plug, ["clang++", "-O1", "-fPIC", "-shared", "-fno-rtti"] + PREEMPT[kind] + llvmflags + [ENG + "/SymPass.cpp"])
    return plug


def directive(harness, word):
    with open(os.path.join(VERIF, "harness", harness + ".cc")) as f:
        return "BUILD: " + word in f.read(400)


def preemptive(harness):
    return directive(harness, "preempt")


def tool_sources(harness):
    """harnesses marked BUILD: tools are linked with the command line tools as well (library odctools)"""
    if not directive(harness, "tools"):
        return []
    t = open(REPO + "/src/odc/tools/CMakeLists.txt").read()
    m = re.search(r"odctools_src_files(.*?)\n\)", t, re.S)
    out = [l.strip() for l in m.group(1).splitlines()]
    return ["src/odc/tools/" + l for l in out if l.endswith(".cc") and not l.startswith("#")]


def sched_obj():
    src = os.path.join(VERIF, "harness", "sched_rt.cc")
    return compile_cached(src, os.path.join(BUILD, "sched_rt.o"), ["g++", "-O1", "-g", "-w", "-fPIC", "-std=gnu++17", "-U_FORTIFY_SOURCE", "-fno-threadsafe-statics", "-I" + ENG, "-I" + VERIF + "/harness", "-c", src])


def engine():
    d = os.path.join(BUILD, "engine")
    os.makedirs(d, exist_ok=True)
    plug, lib = os.path.join(d, "SymPass.so"), os.path.join(d, "libsymrt.so")
    llvmflags = sh([LLVM + "/bin/llvm-config", "--cxxflags"]).split()
    f = [
        lambda: compile_cached(ENG + "/SymPass.cpp", plug, ["clang++", "-O1", "-fPIC", "-shared", "-fno-rtti"] + llvmflags + [ENG + "/SymPass.cpp"]),
        lambda: compile_cached(ENG + "/symrt.cpp", d + "/symrt.o", ["g++", "-O2", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fPIC", "-std=c++17", "-fno-builtin", "-fno-strict-aliasing", "-fno-tree-loop-distribute-patterns", "-c", ENG + "/symrt.cpp"]),
        lambda: compile_cached(ENG + "/solve.cpp", d + "/solve.o", ["g++", "-O1", "-fPIC", "-std=c++17", "-I" + Z3 + "/include", "-c", ENG + "/solve.cpp"]),
    ]
    par(f)
    k = "|".join(hfile(x) for x in (d + "/symrt.o", d + "/solve.o", ENG + "/export.map"))
    kf = lib + ".key"
    if not (os.path.exists(lib) and os.path.exists(kf) and open(kf).read() == k):
        sh(["g++", "-shared", "-o", lib, d + "/symrt.o", d + "/solve.o", "-Wl,--version-script=" + ENG + "/export.map", "-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib", "-ldl"])
        open(kf, "w").write(k)
    return plug, lib


def gen_headers():
    """The generated headers of the CMake build, recreated from /repo's templates."""
    g = os.path.join(BUILD, "gen")
    os.makedirs(g + "/odc", exist_ok=True)
    ver = open(REPO + "/VERSION").read().strip()
    v = ver.split(".")
    m = {"odc_VERSION": ver, "odc_VERSION_STR": ver, "odc_VERSION_MAJOR": v[0], "odc_VERSION_MINOR": v[1], "odc_VERSION_PATCH": v[2].split("-")[0],
         "odc_GIT_SHA1": "not available", "odc_GIT_SHA1_SHORT": "not available", "odc_SOURCE_DIR": REPO, "odc_BINARY_DIR": g, "CMAKE_INSTALL_PREFIX": "/usr/local"}

    def conf(src, dst):
        t = open(src).read()
        t = re.sub(r"#cmakedefine01\s+(\w+)", lambda k: "#define %s 0" % k.group(1), t)
        t = re.sub(r"#cmakedefine\s+(\w+).*", lambda k: "/* #undef %s */" % k.group(1), t)
        t = re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda k: m.get(k.group(1) or k.group(2), "0"), t)
        if not (os.path.exists(dst) and open(dst).read() == t):
            open(dst, "w").write(t)
    conf(REPO + "/src/odc_config.h.in", g + "/odc_config.h")
    conf(REPO + "/src/odc/ODBAPIVersionSHA1.cc.in", g + "/odc/ODBAPIVersionSHA1.cc")
    t = "#ifndef ODC_ecbuild_config_h\n#define ODC_ecbuild_config_h\n#endif\n"
    if not os.path.exists(g + "/odc_ecbuild_config.h"):
        open(g + "/odc_ecbuild_config.h", "w").write(t)
    return g


def lib_sources():
    """The .cc files CMake compiles into odccore (list odclib_src_files minus templates)."""
    t = open(REPO + "/src/odc/CMakeLists.txt").read()
    m = re.search(r"odclib_src_files(.*?)\n\)", t, re.S)
    tm = re.search(r"odclib_templates(.*?)\n\)", t, re.S)
    templ = set(re.findall(r"[\w/-]+\.cc\b", tm.group(1))) if tm else set()
    out = []
    for line in m.group(1).splitlines():
        line = line.strip()
        if line.startswith("#") or "CMAKE_CURRENT_BINARY_DIR" in line:
            continue
        if line.endswith(".cc") and line not in templ:
            out.append("src/odc/" + line)
    return out


INC = lambda g: ["-I" + g, "-I" + REPO + "/src", "-I" + ECKIT + "/include", "-I" + ECKIT + "/include/eckit/sql", "-I" + ECKIT + "/include/eckit"]
SYMFLAGS = ["-O2", "-g0", "-w", "-DNDEBUG", "-std=gnu++17", "-fPIE", "-include", ENG + "/noextern.h", "-fno-vectorize", "-fno-slp-vectorize", "-U_FORTIFY_SOURCE", "-DSYM_ENGINE",
            "-fno-builtin-strtod"]


def sym_objs(sources, plug, g, tag="sym", defs=()):
    def one(s):
        src = s if os.path.isabs(s) else os.path.join(REPO, s)
        name = (s.lstrip("/")).replace("/", "__") + ".o"
        obj = os.path.join(BUILD, tag, name)
        return lambda: compile_cached(src, obj, ["clang++"] + SYMFLAGS + list(defs) + ["-fpass-plugin=" + plug] + INC(g) + ["-I" + ENG, "-I" + VERIF + "/harness", "-c", src], extra=(plug,))
    return par([one(s) for s in sources])


def link(out, objs, libs):
    sh(["clang++", "-pie", "-rdynamic", "-o", out] + objs + libs)


def symbolic_exe(harness, extra_sources=(), defs=(), drop=()):
    """instrumented harness + instrumented odc library"""
    os.makedirs(BUILD, exist_ok=True)
    g = gen_headers()
    plug, lib = engine()
    pre = preemptive(harness)
    if pre:
        plug = preempt_plugin("sym")
    srcs = [s for s in lib_sources() if s not in drop] + tool_sources(harness) + list(extra_sources)
    hs = [os.path.join(VERIF, "harness", harness + ".cc"), os.path.join(VERIF, "harness", "main.cc"), g + "/odc/ODBAPIVersionSHA1.cc"]
    objs = sym_objs(hs + srcs, plug, g, tag="symp" if pre else "sym", defs=defs)
    if pre:
        objs.append(sched_obj())
    exe = os.path.join(BUILD, "bin", harness + "_sym")
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    link(exe, objs, [lib, "-Wl,-rpath," + os.path.dirname(lib), "-L" + ECKIT + "/lib64", "-leckit_sql", "-leckit_geometry", "-leckit", "-Wl,-rpath," + ECKIT + "/lib64", "-ldl", "-lpthread"])
    return exe


REALFLAGS = ["-O2", "-g", "-w", "-DNDEBUG", "-std=gnu++17", "-fPIC"]


def replay_exe(harness, extra_sources=(), defs=(), asan=False, drop=()):
    """plain g++ build of the same harness and of /repo's sources, with the flags of the project's own build"""
    g = gen_headers()
    pre = preemptive(harness)
    tag = "realp" if pre else "asan" if asan else "real"
    asan = asan and not pre
    flags = REALFLAGS + (["-fsanitize=address", "-fno-omit-frame-pointer", "-O1"] if asan else []) + list(defs)
    cc = ["g++"]
    plug = ""
    if pre:    # the same preemption points as the symbolic build, hence the same compiler
        plug = preempt_plugin("real")
        cc = ["clang++", "-fpass-plugin=" + plug]

    def one(s):
        src = s if os.path.isabs(s) else os.path.join(REPO, s)
        obj = os.path.join(BUILD, tag, s.lstrip("/").replace("/", "__") + ".o")
        # the harness with the compiler of the symbolic build: the order in which it evaluates arguments, hence the order in
        # which the harness draws its variables, must be the same
        c = ["clang++"] if not pre and s.startswith(VERIF + "/harness/") else cc
        return lambda: compile_cached(src, obj, c + flags + ["-DSYM_REPLAY"] + INC(g) + ["-I" + ENG, "-I" + VERIF + "/harness", "-c", src], extra=(plug,) if plug else ())
    srcs = [os.path.join(VERIF, "harness", harness + ".cc"), os.path.join(VERIF, "harness", "main.cc"), os.path.join(ENG, "replay.cpp"), g + "/odc/ODBAPIVersionSHA1.cc"]
    objs = par([one(s) for s in srcs + [s for s in lib_sources() if s not in drop] + tool_sources(harness) + list(extra_sources)])
    if pre:
        objs.append(sched_obj())
    exe = os.path.join(BUILD, "bin", harness + "_" + tag)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    sh(["g++"] + (["-fsanitize=address"] if asan else []) + ["-rdynamic", "-o", exe] + objs + ["-L" + ECKIT + "/lib64", "-leckit_sql", "-leckit_geometry", "-leckit", "-Wl,-rpath," + ECKIT + "/lib64", "-ldl", "-lpthread"])
    return exe


if __name__ == "__main__":
    t = time.time()
    print(engine(), time.time() - t)
    g = gen_headers()
    plug, lib = engine()
    t = time.time()
    sym_objs(lib_sources(), plug, g)
    print("objs", time.time() - t)
