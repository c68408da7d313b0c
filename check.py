#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decide one property on /repo's current tree
   check.py --replay <file>                      run one recorded counterexample against the real code again
   check.py --setup                              build the engine and compile the tree once"""
import concurrent.futures as cf
import json, os, re, shutil, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib
from registry import PROPS

EVD = os.path.join(vlib.VERIF, "evidence")
MEM = {"oob", "uaf", "null", "free", "doublefree", "memory"}


def known_findings(pid):
    p = os.path.join(vlib.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


def printable(h):
    b = bytes.fromhex(h)
    return "".join(chr(c) if 32 <= c < 127 and c != 92 else "\\x%02x" % c for c in b)


def confirm(kind, st):
    """does a native result confirm an engine violation?"""
    if st in ("ASSERT", "CRASH"):
        return True
    return st == "TIMEOUT" and kind in ("nontermination", "recursion", "witness")


def replay(path):
    j = json.load(open(path))
    tr = vlib.Tree(j.get("variant", ""))
    tr.ensure()
    work = tempfile.mkdtemp(prefix="w-", dir=vlib.BUILD)
    try:
        exe = vlib.build_native(tr, os.path.join(vlib.VERIF, "harness", j["harness"] + ".c"), work, "h", j["cflags"], j["sanitizer"])
        os.environ["V_VERBOSE"] = "1"
        r = vlib.native_run(exe, [j["input"]], {int(k): v for k, v in j["params"].items()}, work, "r", 20)[0]
        print(r[4])
        print("replay: %s %s" % (r[0], r[3]))
        return 1 if confirm(j["kind"], r[0]) else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    os.makedirs(vlib.BUILD, exist_ok=True)
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--setup":
        vlib.build_engine()
        vlib.Tree("").ensure()
        return 0
    pid = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = PROPS[pid]
    t0 = time.time()
    os.makedirs(EVD, exist_ok=True)
    rdir = os.path.join(EVD, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    variants = sorted({h.variant for h in prop["harnesses"]})
    with cf.ThreadPoolExecutor(1 + len(variants)) as ex:
        fs = [ex.submit(vlib.build_engine)] + [ex.submit(vlib.Tree(v).ensure) for v in variants]
        for f in fs:
            f.result()
    trees = {v: vlib.Tree(v) for v in variants}
    work = tempfile.mkdtemp(prefix="w-", dir=vlib.BUILD)
    kf = known_findings(pid)
    kf_hit, viols, runs, notes, samples = set(), [], [], [], []
    tot = dict(paths=0, forks=0, queries=0, solver=0.0, asserts=0, assert_queries=0, insts=0, wit=0, witok=0, cand=0, unrep=0)
    funcs, unmodelled = {}, set()
    budget = 780 if tier == "quick" else 10 ** 6
    exhausted = True
    try:
        def build(i):
            h = prop["harnesses"][i]
            src = os.path.join(vlib.VERIF, "harness", h.src + ".c")
            tr = trees[h.variant]
            bc = vlib.compile_harness(tr, src, work, "h%d" % i, h.cflags)
            exe = vlib.build_native(tr, src, work, "h%d" % i, h.cflags)
            return bc, exe
        with cf.ThreadPoolExecutor(4) as ex:
            built = list(ex.map(build, range(len(prop["harnesses"]))))
        for i, h in enumerate(prop["harnesses"]):
            bc, exe = built[i]
            src = os.path.join(vlib.VERIF, "harness", h.src + ".c")
            reach = {}
            for j, params in enumerate(h.quick if tier == "quick" else h.thorough):
                left = budget - (time.time() - t0)
                if left < 20:
                    notes.append("%s %s: skipped, time budget used" % (h.name, params))
                    exhausted = False
                    continue
                tl = min(h.time if tier == "quick" else h.ttime, left - 15)
                tag = "h%d.%d" % (i, j)
                r = vlib.run_engine(bc, params, work, tag, tl, h.max_steps, seed, h.undef)
                for k, v in r["reach"].items():
                    reach[k] = reach.get(k, 0) + v
                tot["paths"] += r["paths"]; tot["forks"] += r["forks"]; tot["queries"] += r["queries"]; tot["solver"] += r["solver_time"]
                tot["asserts"] += r["asserts"]; tot["assert_queries"] += r["assert_queries"]; tot["insts"] += r["insts"]
                unmodelled |= set(r["unmodelled"])
                if r["incomplete"] or r["unknown"]:
                    exhausted = False
                    notes.append("%s %s: not exhausted: %s, unknown=%d" % (h.name, params, r.get("why"), r["unknown"]))
                for fn, f in r["funcs"].items():
                    g = funcs.setdefault(fn, dict(file=os.path.relpath(f["file"], vlib.REPO) if f["file"].startswith("/") else f["file"], nbb=f["nbb"], hit=set(), lines=f["lines"]))
                    g["hit"] |= set(f["hit"])
                # witnesses of proved paths, replayed against the native build
                wits = r["wits"]
                res = vlib.native_run(exe, [w[0] for w in wits], params, work, tag + "w")
                bad = 0
                for w, y in zip(wits, res):
                    tot["wit"] += 1
                    same = y[0] == "OK" and y[1] == w[1] and set(filter(None, w[2].split(","))) == set(filter(None, y[2].split(",")))
                    tot["witok"] += same
                    if not same:
                        bad += 1
                        if confirm("witness", y[0]):
                            viols.append(dict(h=h, params=params, kind="witness", msg="native run of a path witness fails: %s %s" % (y[0], y[3]), loc="", input=w[0], native=y, san="asan", trace=""))
                        elif bad <= 3:
                            notes.append("%s %s: engine/native disagree on %s: %s" % (h.name, params, printable(w[0]), y[:4]))
                for w in wits[:2]:
                    samples.append(dict(harness=h.name, bounds=params, input=printable(w[0]), reach=w[2]))
                # candidate violations
                groups = {}
                for v in r["viol"]:
                    groups.setdefault((v["kind"], v["msg"], v["loc"]), []).append(v)
                todo = [(k, v) for k, vs in groups.items() for v in vs[:8]]
                msan_exe = None
                for san in ("asan", "msan"):
                    part = [(k, v) for k, v in todo if (k[0] == "uninit") == (san == "msan")]
                    if not part:
                        continue
                    if san == "msan":
                        if msan_exe is None:
                            msan_exe = vlib.build_native(trees[h.variant], src, work, "h%d" % i, h.cflags, "msan")
                        e = msan_exe
                    else:
                        e = exe
                    res = vlib.native_run(e, [v["input"] for _, v in part], params, work, tag + "v")
                    done = set()
                    for (k, v), y in zip(part, res):
                        tot["cand"] += 1
                        if k in done:
                            continue
                        if confirm(v["kind"], y[0]):
                            done.add(k)
                            viols.append(dict(h=h, params=params, kind=v["kind"], msg=v["msg"], loc=v["loc"], input=v["input"], native=y, san=san, trace=v["trace"]))
                    for k in {k for k, _ in part} - done:
                        tot["unrep"] += 1
                        notes.append("%s %s: engine reported %s, native run did not confirm it (input %s)" % (h.name, params, k, printable(groups[k][0]["input"])))
                runs.append(dict(harness=h.name, what=h.what, bounds={("p%d" % k): v for k, v in params.items()}, bound_names=h.bounds, paths=r["paths"], queries=r["queries"],
                                 sat=r["sat"], unsat=r["unsat"], unknown=r["unknown"], solver_s=round(r["solver_time"], 3), wall_s=round(r["wall"], 2),
                                 asserts_decided=r["asserts"], incomplete=bool(r["incomplete"]), reach=r["reach"], outside=h.outside, stubs=h.stubs))
            miss = [l for l in h.reach if l not in reach]
            if miss:
                notes.append("%s: situations the bounds were meant to include were not reached: %s" % (h.name, ", ".join(miss)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    fresh = []
    for n, v in enumerate(viols):
        hit = None
        for k in kf:
            if k["harness"] == v["h"].name and re.search(k["match"], v["kind"] + ": " + v["msg"] + " @" + v["loc"]):
                hit = k
        if hit:
            kf_hit.add(hit["id"])
            continue
        p = os.path.join(rdir, "%s-%d.json" % (pid, n))
        with open(p, "w") as fp:
            json.dump(dict(property=pid, harness=v["h"].src, cflags=v["h"].cflags, variant=v["h"].variant, params=v["params"], kind=v["kind"], message=v["msg"], location=v["loc"],
                           input=v["input"], printable=printable(v["input"]), native=v["native"][0], native_message=v["native"][3], sanitizer=v["san"],
                           trace=v["trace"], stderr=v["native"][4][-4000:], rerun="python3 /verif/check.py --replay " + p), fp, indent=1)
        fresh.append((v, p))
    for k in kf:
        if k["id"] in kf_hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            notes.append("known finding %s did not show" % k["id"])
    enc = {n: dict(file=f["file"], blocks=f["nbb"], covered=len(f["hit"])) for n, f in sorted(funcs.items()) if f["hit"] and "/src/" in "/" + f["file"]}
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(fresh),
              coverage=dict(states=tot["paths"], transitions=tot["forks"], traces_validated_against_impl=tot["witok"], samples=samples[:40] or ["none"],
                            exhaustive=exhausted and not fresh, explanation="states: feasible symbolic paths of the real code, each standing for every input satisfying its path condition; "
                            "transitions: branch decisions the solver found feasible both ways; traces_validated_against_impl: path witnesses (solver models) replayed on an ASan build of the same sources with identical observations",
                            runs=runs, functions_encoded=enc, queries_discharged=tot["queries"], solver_seconds=round(tot["solver"], 3), property_assertions_decided=tot["asserts"],
                            instructions_executed=tot["insts"], witnesses_replayed=tot["wit"], candidate_counterexamples=tot["cand"], unconfirmed_candidates=tot["unrep"],
                            unmodelled_externals=sorted(unmodelled), notes=notes),
              assumptions=prop.get("assumptions", []) + ["clang 18 -O1 (no LLVM passes but sroa/simplifycfg/early-cse) IR of x86-64; libc and system calls are the models in /verif/models; bounds as listed per run"])
    with open(os.path.join(EVD, pid + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    for n in notes:
        print("note: " + n)
    print("%s %s: %d paths, %d queries, solver %.1fs, %d/%d witnesses agree, wall %.1fs" % (pid, tier, tot["paths"], tot["queries"], tot["solver"], tot["witok"], tot["wit"], time.time() - t0))
    for v, p in fresh:
        print("  %s %s @%s input=%s native=%s %s" % (v["kind"], v["msg"], v["loc"], printable(v["input"]), v["native"][0], v["native"][3]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    return 1 if fresh else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vlib.CheckError as e:
        print("check error: %s" % e)
        sys.exit(2)
