"""C33: bounded model checking (CBMC) of /repo's C sources; a counterexample is replayed by the same harness compiled natively with sanitizers."""
import os, re, shutil, hashlib, subprocess, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get("REPO", "/repo"); LIB = os.path.join(REPO, "lib", "cudd-3.0.0")
CHECKS = ["--bounds-check", "--pointer-check", "--div-by-zero-check", "--signed-overflow-check", "--memory-leak-check", "--no-standard-checks", "--no-malloc-may-fail"]
def one(ctx, R, k, task):
    name, harness, defs, unwind, cap, mandatory = task; d = ctx.sub("t%d" % k); cf = ctx.sub("config"); shutil.copy(os.path.join(VERIF, "engine", "cudd_config.h"), cf + "/config.h.%d" % k); os.replace(cf + "/config.h.%d" % k, cf + "/config.h")
    inc = ["-I" + cf, "-I" + LIB] + ["-I" + os.path.join(LIB, x) for x in ("st", "util", "epd", "mtr")]
    src = os.path.join(VERIF, "engine", "c", harness); D = ["-D" + x for x in defs]
    r, t = R.sh(["goto-cc", "-DVSYM"] + D + inc + [src, "-o", d + "/h.gb"], timeout=120)
    if r: return {"task": name, "error": "goto-cc: " + t[-1500:]}
    t0 = time.time()
    r, t = R.sh(["bash", "-c", "ulimit -v 12000000; exec cbmc \"$@\"", "cbmc", d + "/h.gb", "--unwind", str(unwind), "--unwinding-assertions", "--stop-on-fail", "--trace", "--sat-solver", "cadical", "--verbosity", "8"] + CHECKS, timeout=min(cap, max(5, ctx.left() - 20)))
    wall = round(time.time() - t0, 2); sol = sum(float(x) for x in re.findall(r"Runtime decision procedure: ([\d.e+-]+)s", t)); vcc = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", t); sz = re.findall(r"(\d+) variables, (\d+) clauses", t)
    res = {"task": name, "wall_s": wall, "solver_s": round(sol, 2), "vccs": int(vcc.group(1)) if vcc else 0, "sat_instance": sz[-1] if sz else None, "defs": defs, "unwind": unwind, "mandatory": mandatory}
    if r == 124: return dict(res, incomplete=True)
    if r == 0 and "VERIFICATION SUCCESSFUL" in t: return dict(res, held=True)
    if r != 10: return dict(res, error="cbmc ended with %d: %s" % (r, t[-800:]))
    prop = re.search(r"Violated property:\n(?:.*\n){2}\s*(.*)", t); what = prop.group(1).strip() if prop else "?"
    nd = {}
    for i, v in re.findall(r"\bndv\[(\d+)l*\]=(\d+)u?", t): nd[int(i)] = int(v)
    vals = " ".join(str(nd.get(i, 0)) for i in range(max(nd) + 1 if nd else 0)); cex = d + "/counterexample.txt"
    open(cex, "w").write("# %s\n# %s\n%s\n" % (name, what, vals))
    if "unwinding assertion" in what: return dict(res, error="the unwinding bound %d is too small (%s)" % (unwind, what), cex=cex, bound=True, what=what, dir=d, src=src, D=D, inc=inc)
    return dict(res, cex=cex, what=what, dir=d, src=src, D=D, inc=inc)
def replay(R, res):
    b = res["dir"] + "/native"; r, t = R.sh(["gcc", "-g", "-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] + res["D"] + res["inc"] + [res["src"], "-lm", "-o", b], timeout=120)
    if r: raise R.NoAnswer("native harness: " + t[-1500:])
    r, t = R.sh([b, res["cex"]], timeout=20)
    m = [l for l in t.splitlines() if l.startswith("REPRODUCED ")]
    if m: return m[0][11:]
    if r == 124: return "does not terminate (%s)" % res["what"]
    s = [l for l in t.splitlines() if "ERROR: " in l or "runtime error" in l]
    if s: return "%s (%s)" % (re.sub(r"^==\d+==", "", s[0])[:200], res["what"])
    if r < 0 or r in (134, 139): return "ends with %d (%s)" % (r, res["what"])
    return None
def runner(tasks, encoded, bounds):
    def run(ctx, R):
        ts = tasks[ctx.tier]; runs, viol = [], []
        with ThreadPoolExecutor(8) as ex: runs = list(ex.map(lambda a: one(ctx, R, a[0], a[1]), enumerate(ts)))
        for r in runs:
            if "cex" not in r: continue
            msg = replay(R, r)
            if msg is None:
                if r.get("error"): continue
                raise R.NoAnswer("%s: counterexample (%s) that the compiled code does not reproduce" % (r["task"], r["what"]))
            msg = "%s: %s" % (r["task"], msg); kn = [x for x in ctx.known if msg.startswith(x)]
            if kn: ctx.knownHit.append(kn[0]); continue
            d = os.path.join(VERIF, "evidence", "replay", ctx.prop + "_" + hashlib.sha1(open(r["cex"], "rb").read()).hexdigest()[:10]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d); shutil.copy(r["cex"], d + "/counterexample.txt")
            open(d + "/README", "w").write(msg + "\nReplay: gcc -g -fsanitize=address,undefined %s %s -lm -o h && ./h counterexample.txt\n" % (" ".join(r["D"] + r["inc"]), r["src"])); viol.append((msg, d)); break
        if not viol:
            bad = [r for r in runs if r.get("error")]
            if bad: raise R.NoAnswer("%s: %s" % (bad[0]["task"], bad[0]["error"]))
            slow = [r for r in runs if r.get("incomplete") and r["mandatory"]]
            if slow: raise R.NoAnswer("not decided within the time limit: " + ", ".join(r["task"] for r in slow))
        c = ctx.cov; done = [r for r in runs if r.get("held")]; c["functions_encoded"] = encoded; c["bounds"] = bounds
        c["queries_discharged"] = len(done); c["assertions_discharged"] = sum(r["vccs"] for r in done); c["solver_s"] = round(sum(r.get("solver_s", 0) for r in runs), 1)
        c["bounds_exhausted"] = ["%s (%s; unwinding %d): %d verification conditions, %.1f s" % (r["task"], " ".join(r["defs"]), r["unwind"], r["vccs"], r["wall_s"]) for r in done]
        c["bounds_not_exhausted"] = ["%s: stopped by time" % r["task"] for r in runs if r.get("incomplete")]; c["exhaustive"] = not c["bounds_not_exhausted"]
        c["runs"] = [{k: r.get(k) for k in ("task", "wall_s", "solver_s", "vccs", "sat_instance", "held", "incomplete", "what")} for r in runs]
        ctx.samples.extend({"task": r["task"], "verification_conditions": r["vccs"], "sat_instance_variables_clauses": r["sat_instance"]} for r in done[:3])
        return viol
    return run
OPS = ["st_insert", "st_add_direct", "st_find_or_add", "st_find", "st_delete", "st_delete_int", "lookups", "st_foreach", "st_gen", "st_copy", "creation"]
def st(op, mode, ne, nb, grow=2, fail=False, cap=600, mand=True):
    names = ["any hash function", "any hash function with argument", "numbers", "pointers", "strings"]
    return ("%s, %s, <=%d entries in %d bins%s" % (OPS[op], names[mode], ne, nb, ", memory may run out" if fail else ""), "st_harness.c", ["OP=%d" % op, "MODE=%d" % mode, "NE=%d" % ne, "NB=%d" % nb, "GROW=%d" % grow] + (["FAILALLOC"] if fail else []), max(ne + 3, 2 * nb + 2, grow * nb + 3), cap, mand)
def hf(mode, hl, hm): return ("hash function of " + {2: "numbers", 3: "pointers", 4: "strings of %d characters" % hl}[mode], "st_harness.c", ["OP=11", "MODE=%d" % mode, "NE=0", "NB=1", "GROW=2", "HLEN=%d" % hl, "HMAX=%d" % hm], hl + 3, 600, True)
Q = [st(o, 0, 2, 2) for o in (0, 1, 2)] + [st(o, 0, 3, 2) for o in range(3, 11)] + [st(o, 0, 2, 1) for o in (0, 1, 2)] + [st(o, 1, 1, 2) for o in range(0, 11)] + [st(o, m, 1, 2) for o in (0, 1, 2, 3, 4, 5, 6) for m in (2, 3)] + [st(0, 2, 2, 1), st(4, 2, 2, 1), st(10, 2, 1, 1), st(6, 4, 1, 2)] + [st(o, 0, 2, 1, fail=True) for o in (0, 1, 2, 8)] + [hf(2, 0, 64), hf(3, 0, 64), hf(4, 5, 1)]
# deeper bounds: more entries, more bins, another growth factor
D = Q + [st(o, 0, 3, 2, cap=3000, mand=False) for o in (0, 1, 2)] + [st(o, 0, 4, 3, cap=3000, mand=False) for o in (3, 4, 5, 6, 7, 8, 9)] + [st(o, 0, 2, 1, grow=3, cap=2000, mand=False) for o in (0, 1, 2)] + [st(o, 0, 2, 3, cap=3000, mand=False) for o in (0, 1, 2)] + [st(o, m, 2, 2, cap=3000, mand=False) for o in (0, 4, 6) for m in (2, 3, 4)] + [hf(2, 0, 4096), hf(3, 0, 4096), ("hash function of strings of 7 characters", "st_harness.c", ["OP=11", "MODE=4", "NE=0", "NB=1", "GROW=2", "HLEN=7", "HMAX=4"], 10, 3000, False)]
FORMS = {1: ["EpdMultiply", "EpdMultiply2", "EpdMultiply3"], 2: ["EpdDivide", "EpdDivide2", "EpdDivide3"], 3: ["EpdAdd", "EpdAdd2", "EpdAdd3"], 4: ["EpdSubtract", "EpdSubtract2", "EpdSubtract3"]}
def epd(name, op, *defs): return (name, "epd_harness.c", ["OP=%d" % op] + list(defs), 4, 600, True)
def epds(dmax, mb):
    r = [epd("conversion", 0), epd("powers of two", 5), epd("infinities and NaN", 6, "MB=5"), epd("difference of equal numbers (EpdSubtract2)", 7, "FORM=0", "MB=5"), epd("difference of equal numbers (EpdSubtract3)", 7, "FORM=1", "MB=5")]
    for op in (1, 2, 3, 4):
        for f in range(3):
            r.append(epd(FORMS[op][f] + (", exponents at most %d apart" % dmax if op > 2 else ""), op, "FORM=%d" % f, "MB=%d" % mb, "DMAX=%d" % dmax))
            if op > 2: r.append(epd(FORMS[op][f] + ", exponents more than 60 apart", op, "FORM=%d" % f, "MB=%d" % mb, "FAR"))
    return r
