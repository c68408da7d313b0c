"""Driver: compiles /repo's current sources to LLVM bitcode and to a native ASan build, runs the symbolic
engine on each harness of a property, replays counterexamples and path witnesses natively, writes evidence."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("V_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENGINE = os.path.join(BUILD, "engine", "symx")
CLANG = shutil.which("clang-18") or "clang"
OPT = shutil.which("opt-18") or "opt"
LINK = shutil.which("llvm-link-18") or "llvm-link"
NM = shutil.which("llvm-nm-18") or shutil.which("llvm-nm") or "nm"
NCPU = os.cpu_count() or 4

MAINS = {"src/blogc/main.c": "blogc_main", "src/blogc-make/main.c": "blogc_make_main",
         "src/blogc-runserver/main.c": "blogc_runserver_main", "src/blogc-git-receiver/main.c": "blogc_git_receiver_main"}


class CheckError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def build_engine():
    src = [os.path.join(VERIF, "engine", f) for f in ("symx.cpp", "expr.cpp", "expr.h", "Makefile")]
    if os.path.exists(ENGINE) and all(os.path.getmtime(ENGINE) >= os.path.getmtime(s) for s in src):
        return
    os.makedirs(os.path.join(BUILD, "engine"), exist_ok=True)
    run(["make", "-j8", "-C", os.path.join(VERIF, "engine"), "B=" + os.path.join(BUILD, "engine")])


def repo_sources():
    s = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.c"), recursive=True))
    if not s:
        raise CheckError("no sources in " + REPO)
    return s


def tree_hash(extra=()):
    h = hashlib.sha256()
    files = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.[ch]"), recursive=True)) + [os.path.join(REPO, "config.h.in")]
    files += sorted(glob.glob(os.path.join(VERIF, "models", "*"))) + list(extra)
    h.update(REPO.encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fp:
            h.update(fp.read())
    with open(os.path.abspath(__file__), "rb") as fp:
        h.update(fp.read())
    return h.hexdigest()[:20]


def write_config(d):
    out = []
    for line in open(os.path.join(REPO, "config.h.in")):
        m = re.match(r"#cmakedefine\s+(\w+)(.*)", line)
        if m:
            rest = m.group(2).replace("@PACKAGE_VERSION@", "0.0.0")
            out.append("#define %s%s\n" % (m.group(1), rest))
        else:
            out.append(line)
    with open(os.path.join(d, "config.h"), "w") as fp:
        fp.writelines(out)


BCF = ["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-emit-llvm", "-c", "-fno-builtin", "-DNDEBUG", "-DHAVE_CONFIG_H",
       "-U_FORTIFY_SOURCE", "-D__NO_CTYPE", "-fno-stack-protector", "-w", "-Wno-error=implicit-function-declaration", "-Wno-error=implicit-int", "-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types", "-std=gnu11"]
NATF = ["-O1", "-g", "-c", "-fno-builtin", "-DNDEBUG", "-DHAVE_CONFIG_H", "-U_FORTIFY_SOURCE", "-w", "-Wno-error=implicit-function-declaration", "-Wno-error=implicit-int", "-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types", "-std=gnu11",
        "-fno-omit-frame-pointer"]
SAN = {"asan": ["-fsanitize=address"], "msan": ["-fsanitize=memory"]}


class Tree:
    """Compiled form of /repo's current sources, cached by content hash under build/cache."""

    def __init__(self, variant=""):
        self.variant = variant     # "" or "embedded"
        self.hash = tree_hash() + (("-" + variant) if variant else "")
        self.dir = os.path.join(BUILD, "cache", self.hash)

    def ensure(self):
        ok = os.path.join(self.dir, "OK")
        if os.path.exists(ok):
            os.utime(ok)
            return
        cache = os.path.join(BUILD, "cache")
        os.makedirs(cache, exist_ok=True)
        old = sorted((os.path.join(cache, d) for d in os.listdir(cache)), key=os.path.getmtime)
        for d in old[:-6]:
            shutil.rmtree(d, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="t-", dir=cache)
        write_config(tmp)
        extra = ["-DMAKE_EMBEDDED=1"] if self.variant == "embedded" else []
        jobs = []
        for s in repo_sources():
            rel = os.path.relpath(s, REPO)
            name = rel.replace("/", "_")[:-2]
            d = ["-Dmain=" + MAINS[rel]] if rel in MAINS else []
            jobs.append([CLANG] + BCF + extra + d + ["-I", tmp, s, "-o", os.path.join(tmp, name + ".bc")])
            jobs.append([CLANG] + NATF + SAN["asan"] + extra + d + ["-I", tmp, s, "-o", os.path.join(tmp, name + ".asan.o")])
        for s in sorted(glob.glob(os.path.join(VERIF, "models", "*.c"))):
            name = "model_" + os.path.basename(s)[:-2]
            inc = ["-I", os.path.join(VERIF, "models"), "-I", tmp, "-I", os.path.join(REPO, "src")]
            if not s.endswith("v_native.c"):
                jobs.append([CLANG] + BCF + inc + [s, "-o", os.path.join(tmp, name + ".bc")])
            if not s.endswith("libc.c"):
                jobs.append([CLANG] + NATF + SAN["asan"] + inc + [s, "-o", os.path.join(tmp, name + ".asan.o")])
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(run, j) for j in jobs]:
                f.result()
        bcs = sorted(glob.glob(os.path.join(tmp, "src_*.bc"))) + sorted(glob.glob(os.path.join(tmp, "model_*.bc")))
        open(os.path.join(tmp, "OK"), "w").write("\n".join(os.path.basename(b) for b in bcs))
        try:
            os.rename(tmp, self.dir)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)

    def bcs(self):
        return sorted(glob.glob(os.path.join(self.dir, "src_*.bc"))) + sorted(glob.glob(os.path.join(self.dir, "model_*.bc")))


def compile_harness(tree, src, work, name, cflags=()):
    inc = ["-I", os.path.join(VERIF, "models"), "-I", os.path.join(VERIF, "harness"), "-I", tree.dir, "-I", os.path.join(REPO, "src")]
    hbc = os.path.join(work, name + ".h.bc")
    run([CLANG] + BCF + inc + list(cflags) + [src, "-o", hbc])
    lbc = os.path.join(work, name + ".l.bc")
    run([LINK, "-o", lbc, hbc] + tree.bcs())
    fbc = os.path.join(work, name + ".bc")
    run([OPT, "-passes=internalize,globaldce,function(sroa,simplifycfg,early-cse,simplifycfg),globaldce",
         "-internalize-public-api-list=v_main", lbc, "-o", fbc]) if False else \
        run([OPT, "-passes=function(sroa,simplifycfg,early-cse,simplifycfg)", lbc, "-o", fbc])
    os.unlink(lbc)
    return fbc


def defined_syms(obj):
    out = run([NM, "--defined-only", "--format=posix", obj])
    return {l.split()[0] for l in out.splitlines() if len(l.split()) > 1 and l.split()[1] in "TtWwVv"}


def undef_syms(obj):
    return {l.split()[0] for l in run([NM, "--undefined-only", "--format=posix", obj]).splitlines() if l.split()}


def build_native(tree, src, work, name, cflags=(), san="asan"):
    inc = ["-I", os.path.join(VERIF, "models"), "-I", os.path.join(VERIF, "harness"), "-I", tree.dir, "-I", os.path.join(REPO, "src")]
    d = os.path.join(work, name + "." + san)
    os.makedirs(d, exist_ok=True)
    ho = os.path.join(d, "h.o")
    run([CLANG] + NATF + SAN[san] + inc + list(cflags) + [src, "-o", ho])
    objs = sorted(glob.glob(os.path.join(tree.dir, "src_*.asan.o")))
    models = sorted(glob.glob(os.path.join(tree.dir, "model_*.asan.o")))
    if san != "asan":
        objs2, models2, jobs = [], [], []
        for s in repo_sources():
            rel = os.path.relpath(s, REPO)
            o = os.path.join(d, rel.replace("/", "_")[:-2] + ".o")
            dd = ["-Dmain=" + MAINS[rel]] if rel in MAINS else []
            if tree.variant == "embedded":
                dd.append("-DMAKE_EMBEDDED=1")
            jobs.append([CLANG] + NATF + SAN[san] + dd + ["-I", tree.dir, s, "-o", o])
            objs2.append(o)
        for s in sorted(glob.glob(os.path.join(VERIF, "models", "*.c"))):
            if s.endswith("libc.c"):
                continue
            o = os.path.join(d, "model_" + os.path.basename(s)[:-2] + ".o")
            jobs.append([CLANG] + NATF + SAN[san] + inc + [s, "-o", o])
            models2.append(o)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(run, j) for j in jobs]:
                f.result()
        objs, models = objs2, models2
    v = set()
    for o in [ho] + [m for m in models if "v_native" not in m]:
        v |= {s for s in defined_syms(o) if s.startswith("v_")}
    v.discard("v_main")
    ren = []

    def redo(o):
        n = os.path.join(d, "r_" + os.path.basename(o))
        a, done = [], set()
        for u in sorted(undef_syms(o)):
            t = re.sub(r"^__isoc(99|23)_", "", u)
            if "v_" + t in v and t not in done:
                done.add(t)
                a.append("--redefine-sym=%s=v_%s" % (u, t))
        run(["objcopy"] + a + [o, n])
        return n
    with cf.ThreadPoolExecutor(NCPU) as ex:
        ren = list(ex.map(redo, objs))
    lib = os.path.join(d, "lib.a")
    run(["ar", "rcs", lib] + ren)
    exe = os.path.join(d, "exe")
    run([CLANG] + SAN[san] + ["-g", ho] + models + [lib, "-lm", "-lpthread", "-o", exe])
    for n in ren:
        os.unlink(n)
    return exe


def native_run(exe, inputs, params, work, tag, timeout=10):
    """run inputs (hex strings) natively; returns list of (status, hash, reach, msg, stderr)"""
    if not inputs:
        return []
    n = min(NCPU, max(1, len(inputs) // 4))
    chunks = [inputs[i::n] for i in range(n)]
    env = dict(os.environ)
    env["V_PARAMS"] = ",".join("%d=%d" % kv for kv in params.items())
    env["V_TIMEOUT"] = str(timeout)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0:max_allocation_size_mb=200"
    env["MSAN_OPTIONS"] = "exitcode=98"

    def one(k):
        fi, fo = os.path.join(work, "%s.%d.in" % (tag, k)), os.path.join(work, "%s.%d.out" % (tag, k))
        with open(fi, "w") as fp:
            fp.write("\n".join(chunks[k]) + "\n")
        p = subprocess.run([exe, fi, fo], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=work)
        lines = [l.rstrip("\n").split("\t") for l in open(fo, errors="replace")] if os.path.exists(fo) else []
        err = p.stderr.decode(errors="replace")
        for f in (fi, fo):
            if os.path.exists(f):
                os.unlink(f)
        if len(lines) != len(chunks[k]):
            raise CheckError("native replay of %s returned %d results for %d inputs\n%s" % (tag, len(lines), len(chunks[k]), err[-3000:]))
        return [tuple((l + [""] * 4)[:4]) + (err,) for l in lines]
    with cf.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, range(n)))
    out = [None] * len(inputs)
    for k in range(n):
        for j, r in enumerate(res[k]):
            out[k + j * n] = r
    return out


class Harness:
    def __init__(self, name, src, quick=({},), thorough=None, reach=(), what="", cflags=(), max_steps=3000000, time=200,
                 ttime=1500, outside="", stubs="", undef=True, variant="", bounds=""):
        self.name, self.src, self.reach, self.what, self.bounds = name, src, list(reach), what, bounds
        self.quick = list(quick)
        self.thorough = list(thorough) if thorough is not None else self.quick
        self.cflags, self.max_steps, self.time, self.ttime = list(cflags), max_steps, time, ttime
        self.outside, self.stubs, self.undef, self.variant = outside, stubs, undef, variant


def merge(files):
    tot = {}
    for f in files:
        try:
            j = json.load(open(f))
        except Exception as e:
            raise CheckError("bad engine output %s: %s" % (f, e))
        if not tot:
            tot = j
            for fn in tot["funcs"].values():
                fn["hit"] = set(fn["hit"])
            continue
        for k in ("paths", "assumed_out", "insts", "forks", "asserts", "assert_queries", "queries", "cache_hits", "sat", "unsat", "unknown", "solver_time"):
            tot[k] += j[k]
        for k in ("max_constraints", "solver_max", "rss_kb"):
            tot[k] = max(tot[k], j[k])
        if j["incomplete"]:
            tot["incomplete"] = True
            tot["why"] = j["why"]
        tot["viol"] += j["viol"]
        tot["wits"] += j["wits"]
        tot["unmodelled"] = sorted(set(tot["unmodelled"]) | set(j["unmodelled"]))
        for k, v in j["reach"].items():
            tot["reach"][k] = tot["reach"].get(k, 0) + v
        for k, v in j["funcs"].items():
            if k in tot["funcs"]:
                tot["funcs"][k]["hit"] |= set(v["hit"])
            else:
                v["hit"] = set(v["hit"])
                tot["funcs"][k] = v
    return tot


def run_engine(bc, params, work, tag, tlimit, max_steps, seed, undef=True, workers=None, wits=200, viol_cap=40, max_paths=None):
    for f in glob.glob(os.path.join(work, tag + ".res.*")):
        os.unlink(f)
    cmd = [ENGINE, bc, "--out", os.path.join(work, tag + ".res"), "--time", str(tlimit), "--max-steps", str(max_steps), "--seed", str(seed),
           "--workers", str(workers or NCPU), "--wits", str(wits), "--viol-cap", str(viol_cap), "--repo", REPO.rstrip("/") + "/"]
    if max_paths:
        cmd += ["--max-paths", str(max_paths)]
    if not undef:
        cmd.append("--no-undef")
    for k, v in params.items():
        cmd += ["--param", "%d=%d" % (k, v)]
    t0 = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    files = sorted(glob.glob(os.path.join(work, tag + ".res.*")))
    if r.returncode != 0 and not files:
        raise CheckError("engine failed (%d): %s" % (r.returncode, r.stdout[-3000:]))
    tot = merge(files)
    if r.returncode != 0:
        tot["incomplete"] = True
        tot["why"] = "engine worker died: " + r.stdout[-300:]
    tot["wall"] = time.time() - t0
    tot["stdout"] = r.stdout
    for f in files:
        os.unlink(f)
    return tot
