"""Builds the analysed program: every translation unit of the simulator in
/repo/src is compiled by clang to LLVM IR (never linked, never run), the
modules are linked and irdump writes the facts the rules query.

Results are cached below /verif/build, keyed by the content of everything that
is compiled; a run on a changed tree therefore always analyses that tree."""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, time, fcntl, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
BUILD = VERIF + "/build"
LLVM = "/usr/lib/llvm-18/bin/"

DEFS = ['-DDEVSIM_COPYRIGHT_YEAR="2009-2026"', "-DDEVSIM_EXTENDED_PRECISION",
        '-DDEVSIM_VERSION_STRING="2.10.1"', "-DLOAD_MATHLIBS", "-DUSE_BLAS",
        "-DUSE_ITERATIVE_SOLVER", "-DUSE_LAPACK", "-DUSE_MKL_PARDISO",
        "-DDEVSIM_MODULE_NAME=devsim_py3", "-DPy_LIMITED_API=0x03090000", "-DNDEBUG"]
BASE = ["-std=gnu++17", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fstandalone-debug", "-fPIC",
        "-fvisibility=hidden", "-flto", "-fwhole-program-vtables", "-w"]
# not part of the simulator, with the reason
SKIP_DIRS = {
    "old": "retired sources, not in any CMakeLists.txt",
    "Circuit/models/user": "templates of the circuit model generator",
    "adiff": "the separate modelcomp program; the simulator uses symdiff",
}
SKIP_FILES = {
    "Circuit/data/NodeTest.cc": "a test driver that is not built",
    "math/SuperLUData.cc": "USE_SUPERLU_PRECONDITIONER is off in this build",
    "math/SuperLUDataZ.cc": "USE_SUPERLU_PRECONDITIONER is off in this build",
    "math/SuperLUPreconditioner.cc": "USE_SUPERLU_PRECONDITIONER is off in this build",
}

def log(*a):
    print("[ir]", *a, file=sys.stderr, flush=True)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def include_dirs():
    out = []
    for d, sub, files in os.walk(SRC):
        rel = os.path.relpath(d, SRC)
        if any(rel == s or rel.startswith(s + "/") for s in SKIP_DIRS):
            continue
        out.append(d)
    return sorted(out)

def units():
    """The translation units: every .cc that no other file includes."""
    all_cc, included = [], set()
    for d, sub, files in os.walk(SRC):
        rel = os.path.relpath(d, SRC)
        if any(rel == s or rel.startswith(s + "/") for s in SKIP_DIRS):
            continue
        for f in files:
            p = os.path.join(d, f)
            if f.endswith((".cc", ".hh", ".cpp")):
                for m in re.finditer(r'^\s*#\s*include\s*"([^"]+\.cc)"', open(p, errors="replace").read(), re.M):
                    same = os.path.normpath(os.path.join(d, m.group(1)))
                    included.add(same if os.path.exists(same) else os.path.basename(m.group(1)))
            if f.endswith(".cc"):
                r = os.path.relpath(p, SRC)
                if r in SKIP_FILES or f.startswith("test_"):
                    continue
                all_cc.append(p)
    return sorted(p for p in all_cc if p not in included and os.path.basename(p) not in included)

def tool():
    """The fact extractor, built from its source when that has changed."""
    src = VERIF + "/engine/irdump.cc"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = f"{BUILD}/irdump-{h}"
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        cpp = [x for x in sh([LLVM + "llvm-config", "--cppflags"]).stdout.split()]
        r = sh(["g++", "-O2", "-std=c++17", "-fno-rtti", *cpp, src, "-o", exe + ".tmp", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        if r.returncode:
            raise SystemExit("irdump does not build:\n" + r.stdout)
        os.rename(exe + ".tmp", exe)
    return exe

def header_hashes():
    """(names of all headers and flags, names and contents)"""
    h, n = hashlib.sha256(), hashlib.sha256()
    n.update(" ".join(BASE + DEFS).encode())
    for d in include_dirs() + [VERIF + "/stubs"]:
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if os.path.isfile(p) and not f.endswith((".txt", ".py")):
                if f.endswith(".cc") and p in UNITS:
                    continue
                n.update(p.encode())
                h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(n.digest())
    return n.hexdigest(), h.hexdigest()

UNITS = set()

def content(path, memo={}):
    r = memo.get(path)
    if r is None:
        try: r = memo[path] = hashlib.sha256(open(path, "rb").read()).hexdigest()
        except OSError: r = memo[path] = "absent"
    return r

def compile_one(src, names, incs, exe, gdir):
    """facts of a unit, keyed by the content of every repository file it includes;
    names: hash over the names of all headers, which decides how includes resolve"""
    base = hashlib.sha256((names + src).encode()).hexdigest()[:24]
    depf = f"{BUILD}/bc/{base}.deps"
    def keyof(deps):
        return hashlib.sha256((names + src + "".join(d + content(d) for d in deps)).encode()).hexdigest()[:24]
    if os.path.exists(depf):
        for deps in json.load(open(depf)):
            out = f"{BUILD}/bc/{keyof(deps)}.facts"
            if os.path.exists(out):
                os.utime(out)
                return out, None
    tmp = f"{BUILD}/bc/{base}.{os.getpid()}.tmp"
    r = sh(["clang++", *BASE, *DEFS, "-I" + VERIF + "/stubs", *incs, "-I/usr/include/python3.12", "-MMD", "-MF", tmp + ".d", "-c", "-emit-llvm", src, "-o", tmp])
    if r.returncode:
        return None, f"{src}: {r.stdout[-3000:]}"
    words = open(tmp + ".d").read().replace("\\\n", " ").split()[1:]
    deps = sorted({os.path.normpath(w) for w in words if not w.startswith("/usr/")})
    os.remove(tmp + ".d")
    r = sh([exe, tmp, tmp + ".f", os.path.basename(src), SRC + "/", gdir + "/"])
    if r.returncode:
        return None, f"{src}: irdump: {r.stdout[-3000:]}"
    os.remove(tmp)
    out = f"{BUILD}/bc/{keyof(deps)}.facts"
    os.rename(tmp + ".f", out)
    have = json.load(open(depf)) if os.path.exists(depf) else []
    have = [deps] + [d for d in have if d != deps]
    with open(tmp, "w") as f: json.dump(have[:6], f)
    os.rename(tmp, depf)
    return out, None

def generated():
    """Parsers and scanners, generated as the build generates them."""
    out, h = [], hashlib.sha256()
    d = SRC + "/meshing"
    gen = []
    for f in sorted(os.listdir(d)):
        if f.endswith((".y", ".l")):
            h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read()); gen.append(f)
    g = f"{BUILD}/gen/{h.hexdigest()[:16]}"
    if not os.path.exists(g + "/done"):
        os.makedirs(g, exist_ok=True)
        for f in gen:
            base = f[:-2]
            if f.endswith(".y"):
                r = sh(["bison", "-d", "-p", base.replace("Parser", ""), "-o", base + ".cc", os.path.join(d, f)], cwd=g)
            else:
                r = sh(["flex", "-P" + base.replace("Scanner", ""), "-o", base + ".cc", os.path.join(d, f)], cwd=g)
            if r.returncode:
                raise SystemExit("parser generation failed: " + r.stdout)
        open(g + "/done", "w").close()
    return g, [g + "/" + f[:-2] + ".cc" for f in gen]

def build():
    """Returns the path of the facts of /repo's current tree."""
    t0 = time.time()
    os.makedirs(BUILD + "/bc", exist_ok=True)
    lock = open(BUILD + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    exe = tool()
    us = units()
    UNITS.clear(); UNITS.update(us)
    gdir, gens = generated()
    names, hh = header_hashes()
    tag = gdir + hashlib.sha256(open(VERIF + "/engine/irdump.cc", "rb").read()).hexdigest()
    names += tag; hh += tag
    allu = us + gens
    h = hashlib.sha256(hh.encode() + open(VERIF + "/engine/irdump.cc", "rb").read())
    for u in allu:
        h.update(u.encode()); h.update(open(u, "rb").read())
    facts = f"{BUILD}/facts/{h.hexdigest()[:24]}"
    if os.path.exists(facts + "/done"):
        os.utime(facts)
        return facts
    incs = ["-I" + gdir] + ["-I" + d for d in include_dirs()]
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(lambda u: compile_one(u, names, incs, exe, gdir), allu))
    errs = [e for o, e in res if e]
    if errs:
        raise SystemExit("units that do not compile:\n" + "\n".join(errs[:5]))
    os.makedirs(facts, exist_ok=True)
    # one program: each entity once, names merged
    seen, names_, nf = set(), {}, 0
    tmp = facts + f"/facts.{os.getpid()}.tmp"
    with open(tmp, "w") as w:
        for o, e in res:
            with open(o) as f:
                for line in f:
                    k, n, j = line.split("\t", 2)
                    if k == "D": names_.update(json.loads(j)["demangled"]); continue
                    if (k, n) in seen: continue
                    seen.add((k, n)); w.write(j); nf += k == "F"
        w.write(json.dumps({"demangled": names_}) + "\n")
    os.rename(tmp, facts + "/facts.jsonl")
    with open(facts + "/units.txt", "w") as f:
        f.write("\n".join(allu) + "\n")
    open(facts + "/done", "w").write(str(nf) + "\n")
    # keep the cache small
    olds = sorted((os.path.join(BUILD, "facts", x) for x in os.listdir(BUILD + "/facts")), key=os.path.getmtime)
    for o in olds[:-6]:
        shutil.rmtree(o, ignore_errors=True)
    bcs = sorted((os.path.join(BUILD, "bc", x) for x in os.listdir(BUILD + "/bc") if x.endswith(".facts")), key=os.path.getmtime)
    for o in bcs[:-1500]:
        os.remove(o)
    log(f"{len(allu)} units analysed in {time.time()-t0:.1f}s -> {facts}")
    return facts

if __name__ == "__main__":
    print(build())
