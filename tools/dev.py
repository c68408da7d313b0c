#!/usr/bin/env python3
"""dev helper: run one harness.  dev.py harness.c 0=4 ... [-t sec] [-n]"""
import sys, os, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
def main():
    a = sys.argv[1:]
    src = a.pop(0); params = {}; t = 100; nat = True; workers = None; cover = False; steps = 3000000; cfl = []; variant = ""
    while a:
        x = a.pop(0)
        if x == "-t": t = float(a.pop(0))
        elif x == "-n": nat = False
        elif x == "-w": workers = int(a.pop(0))
        elif x == "-c": cover = a.pop(0)
        elif x == "-s": steps = int(a.pop(0))
        elif x == "-e": variant = "embedded"
        elif x.startswith("-D"): cfl.append(x)
        else: k, v = x.split("="); params[int(k)] = int(v)
    if not src.endswith(".c"): src += ".c"
    if not os.path.exists(src): src = os.path.join(vlib.VERIF, "harness", src)
    vlib.build_engine()
    tr = vlib.Tree(variant); tr.ensure()
    w = tempfile.mkdtemp(dir=vlib.BUILD)
    try:
        bc = vlib.compile_harness(tr, src, w, "h", cfl)
        r = vlib.run_engine(bc, params, w, "h", t, steps, 1, workers=workers)
        print({k: v for k, v in r.items() if k not in ("viol", "wits", "funcs", "reach")})
        print("reach", r["reach"])
        seen = {}
        for v in r["viol"]:
            k = (v["kind"], v["msg"], v["loc"]); seen.setdefault(k, []).append(v)
        for k, vs in seen.items():
            print("VIOL", k, len(vs), [x["input"] for x in vs[:3]], vs[0]["trace"][:300])
        if cover:
            for n, f in sorted(r["funcs"].items()):
                if cover in f["file"]:
                    print("COV %s %d/%d unhit lines %s" % (n, len(f["hit"]), f["nbb"], sorted({f["lines"][i] for i in range(f["nbb"]) if i not in f["hit"]})))
        if nat:
            exe = vlib.build_native(tr, src, w, "h", cfl)
            wi = r["wits"]
            res = vlib.native_run(exe, [x[0] for x in wi], params, w, "w")
            bad = [(x, y[:4]) for x, y in zip(wi, res) if y[0] != "OK" or y[1] != x[1] or sorted(set(x[2].split(","))) != sorted(set(y[2].split(",")))]
            print("witnesses %d mismatches %d" % (len(wi), len(bad)), bad[:4])
            ins = [vs[0]["input"] for vs in seen.values()]
            for k, y in zip(seen, vlib.native_run(exe, ins, params, w, "v")):
                print("REPLAY", k, bytes.fromhex(seen[k][0]["input"]), y[:4], [l for l in y[4].splitlines() if "ERROR" in l or "/repo" in l][:3])
    finally:
        if os.environ.get("KEEP"): print(w)
        else: shutil.rmtree(w, ignore_errors=True)
main()
