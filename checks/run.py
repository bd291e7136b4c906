#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]

Decides one property by symbolic execution of the real sources in /repo (see DESIGN.md).
Exit 0: held on everything explored; exit 1: VIOLATION line (reproduced on the real program); exit 2/3: no answer."""
import sys, os, json, time, subprocess, tempfile, shutil, glob, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE); sys.path.insert(0, HERE)
REPO = os.environ.get("REPO", "/repo")
import config

class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time(); self.cov = {}; self.assumptions = []; self.samples = []
        self.scratch = tempfile.mkdtemp(prefix="vp_%s_" % prop)
        self.known = load_known(prop); self.knownHit = []
        self.budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "20000"))
        self.procs = []
    def left(self): return self.budget - (time.time() - self.t0)
    def sub(self, name):
        d = os.path.join(self.scratch, name); os.makedirs(d, exist_ok=True); return d
    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

def load_known(prop):
    f = os.path.join(VERIF, "known_findings.txt"); r = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known: property=%s " % prop): r.append(l[len("known: property=%s " % prop):])
    return r

def sh(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try: out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); out, _ = p.communicate(); return 124, out.decode(errors="replace")
    return p.returncode, out.decode(errors="replace")

class NoAnswer(Exception): pass

def start_build(script, out):
    env = dict(os.environ, REPO=REPO); os.makedirs(out, exist_ok=True)
    return subprocess.Popen(["bash", os.path.join(VERIF, "engine", script), out], stdout=open(out + "/build.log", "w"), stderr=subprocess.STDOUT, env=env)

def wait_build(p, out, what):
    if p.wait() != 0: raise NoAnswer("building %s failed:\n%s" % (what, open(out + "/build.log").read()[-4000:]))

def run_real(ctx, sym, slugs, check, cex, wd, timeout=60):
    """Runs the real program on a concrete specification and evaluates the check's oracle on its output."""
    os.makedirs(wd, exist_ok=True)
    _, d = sh([sym, "--describe", check, "--dir", wd, "--cex", cex]); f = d.split(); nout, nin, opts = int(f[0]), int(f[1]), f[2:]
    spec = os.path.join(wd, "spec.slugsin"); r, t = sh([sym, "--check", check, "--text", cex])
    if r != 0: raise NoAnswer("cannot render counterexample: " + t)
    open(spec, "w").write(t)
    outs = [os.path.join(wd, "out_%d" % i) for i in range(nout)]
    cmd = [slugs] + opts + [spec] + [os.path.join(wd, "in_%d" % i) for i in range(nin)] + outs
    with open(wd + "/stdout", "wb") as o, open(wd + "/stderr", "wb") as e, open(wd + "/stdin", "rb") as i:
        p = subprocess.Popen(cmd, stdin=i, stdout=o, stderr=e, cwd=wd, start_new_session=True)
        try: rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired: os.killpg(p.pid, 9); p.wait(); rc = 137
    if rc < 0: rc = 128 - rc
    for o in outs: open(o, "ab").close()
    ev = [sym, "--check", check, "--replay", cex, "--stdout", wd + "/stdout", "--stderr", wd + "/stderr", "--exit", str(rc)]
    for i, o in enumerate(outs): ev += ["--out%d" % i, o]
    r, t = sh(ev, timeout=120)
    last = [l for l in t.splitlines() if l.startswith("REPRODUCED") or l.startswith("NOT-REPRODUCED")]
    if not last: raise NoAnswer("replay evaluation failed (%d): %s" % (r, t[-2000:]))
    return last[-1], cmd

def keep_replay(ctx, wd, check, msg, cmd, sym):
    d = os.path.join(VERIF, "evidence", "replay", ctx.prop + "_" + check + "_" + hashlib.sha1(open(wd + "/spec.slugsin", "rb").read()).hexdigest()[:8])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(os.path.dirname(d), exist_ok=True); shutil.copytree(wd, d)
    opts = [c for c in cmd[1:] if c.startswith("--")]
    open(d + "/README", "w").write("%s\nReplay: build /repo (bash /opt/vp/build.sh), then in this folder:\n  /repo/src/slugs %s spec.slugsin < stdin\n" % (msg, " ".join(opts)))
    return d

def symbolic(ctx, tasks):
    """tasks: list of (check, shape, cap seconds, mandatory)."""
    sb, rb = ctx.sub("sym"), ctx.sub("real")
    p1, p2 = start_build("build.sh", sb), start_build("build_real.sh", rb)
    wait_build(p1, sb, "the symbolic executable"); wait_build(p2, rb, "the real executable")
    ctx.cov["build_s"] = round(time.time() - ctx.t0, 1)
    sym, slugs = sb + "/symslugs", rb + "/slugs"
    runs, violations, unconfirmed, validated, disagreements, crosschecked = [], [], [], 0, 0, 0
    for t in tasks:
        check, shape, cap, mandatory = t[:4]; few = "0e" in shape and any(len(x) > 1 for x in __import__("re").findall(r"[esAG](\d+)", shape.split(":")[1]))
        cap = min(cap, ctx.left() - 20)
        if cap < 3:
            runs.append({"check": check, "shape": shape, "skipped": "time budget"})
            if mandatory: raise NoAnswer("time budget exhausted before %s %s" % (check, shape))
            continue
        wd = ctx.sub("w"); shutil.rmtree(wd); os.makedirs(wd)
        ns = (1 if few else 6) if ctx.tier == "quick" else 20
        cmd = [sym, "--check", check, "--shape", shape, "--workdir", wd, "--jobs", str(os.cpu_count() or 8), "--timeout", str(int(cap)), "--samples", str(ns)]
        ncross = 0 if crosschecked >= 60 and ctx.tier == "quick" else 50
        if ncross: cmd += ["--cross", str(ncross)]
        r, out = sh(cmd, timeout=cap + (60 if mandatory else 15))
        js = [l for l in out.splitlines() if l.startswith("{")]
        if r == 124 and not mandatory: runs.append({"check": check, "shape": shape, "skipped": "no result within the time limit"}); shutil.rmtree(wd); continue
        if r not in (0, 1, 3) or not js: raise NoAnswer("symbolic execution of %s %s ended with %d: %s" % (check, shape, r, out[-2000:]))
        st = json.loads(js[-1]); runs.append(st)
        cexs = sorted(glob.glob(wd + "/cex_*.txt")); samples = sorted(glob.glob(wd + "/sample_*.txt"))[:ns]
        for k, c in enumerate(cexs + samples):
            isc = k < len(cexs); rd = os.path.join(wd, "replay_%d" % k)
            verdict, rc = run_real(ctx, sym, slugs, check, c, rd)
            if verdict.startswith("REPRODUCED"):
                msg = "%s %s: %s" % (check, shape, verdict[11:])
                kn = [x for x in ctx.known if x.split(" ")[0] == check and verdict[11:].startswith(x.split(" ", 1)[1])]
                if kn: ctx.knownHit.append(kn[0]); continue
                violations.append((msg, keep_replay(ctx, rd, check, msg, rc, sym)))
                if not isc: disagreements += 1
                break
            elif isc: unconfirmed.append("%s %s: %s" % (check, shape, open(c).readline().strip("# \n")))
            else:
                validated += 1
                if len(ctx.samples) < 3: ctx.samples.append({"check": check, "shape": shape, "specification": open(rd + "/spec.slugsin").read()[:1500], "program_output": open(rd + "/stdout").read()[:800] + open(rd + "/stderr").read()[-200:]})
        for q in sorted(glob.glob(wd + "/q*.cnf"))[:20]:
            r2, o2 = sh(["kissat", "-q", "-n", q], timeout=60) if shutil.which("kissat") else sh(["z3", "-dimacs", q], timeout=60)
            if "UNSATISFIABLE" in o2 or r2 == 20 or "unsat" in o2: crosschecked += 1
            elif "SATISFIABLE" in o2 or r2 == 10: raise NoAnswer("second solver disagrees on " + q)
        shutil.rmtree(wd)
        if violations: break
        if st["violated"] and unconfirmed and not ctx.knownHit: raise NoAnswer("counterexamples that the real program does not reproduce: %s" % unconfirmed[:5])
        if st["incomplete"] and mandatory and not st["violated"]: raise NoAnswer("exploration of %s %s did not finish within %d s: %s" % (check, shape, cap, st))
    done = [r for r in runs if r.get("paths") and not r.get("incomplete")]
    c = ctx.cov
    c["states"] = sum(r.get("paths", 0) for r in runs); c["transitions"] = sum(r.get("decisions", 0) for r in runs)
    c["traces_validated_against_impl"] = validated
    c["what_states_are"] = "feasible symbolic paths of the real program (each covers all specifications satisfying its path condition); transitions = solver-decided branch points"
    c["paths"] = c["states"]; c["sat_queries"] = sum(r.get("sat_queries", 0) for r in runs); c["assertions_discharged"] = sum(r.get("assertions", 0) for r in runs)
    c["solver_s"] = round(sum(r.get("solver_s", 0) for r in runs), 1); c["queries_cross_checked_by_second_solver"] = crosschecked
    c["bounds_exhausted"] = ["%s %s (%d symbolic bits, %d paths, %.1f s)" % (r["check"], r["shape"], r["inputs"], r["paths"], r["wall_s"]) for r in done]
    c["bounds_not_exhausted"] = ["%s %s: %s" % (r["check"], r["shape"], r.get("skipped") or "%d paths explored, stopped by time" % r["paths"]) for r in runs if r not in done]
    c["exhaustive"] = not c["bounds_not_exhausted"]
    c["runs"] = runs; c["unconfirmed_counterexamples"] = unconfirmed[:10]
    # vacuity: both outcomes that the oracle distinguishes must have been reached somewhere
    for name in set(r["check"] for r in done):
        need = config.WITNESS.get(name, [1])
        tot = [sum(r["witnesses"][i] for r in done if r["check"] == name) for i in range(8)]
        c.setdefault("witnesses", {})[name] = tot
        if not violations and any(tot[i] == 0 for i in need): c.setdefault("vacuous", []).append(name)
    if not violations and c.get("vacuous"): raise NoAnswer("vacuity: no path reached the interesting outcome for %s" % c["vacuous"])
    return violations

def write_evidence(ctx, level, nviol, extra=None):
    cov = ctx.cov; cov["samples"] = ctx.samples or ["none"]
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": cov, "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 1), "violations": nviol}
    if extra: ev["coverage"].update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ctx.prop + ".json.part"); json.dump(ev, open(tmp, "w"), indent=1); os.rename(tmp, tmp[:-5])

def main():
    a = sys.argv[1:]; prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    ctx = Ctx(prop, tier); pc = config.PROPS[prop]
    ctx.assumptions = list(pc.get("assumptions", config.ASSUME_ENGINE)); level = pc.get("level", "model_checking")
    try:
        viol = []
        fn = pc.get("run")
        if fn: viol = fn(ctx, sys.modules[__name__])
        if not viol and pc.get(tier): viol = symbolic(ctx, pc[tier])
        for k in sorted(set(ctx.knownHit)): print("KNOWN-FINDING: property=%s %s" % (prop, k))
        write_evidence(ctx, level, len(viol))
        for m, d in viol[:1]:
            print(m); print("VIOLATION property=%s replay=%s" % (prop, d)); sys.exit(1)
        c = ctx.cov; print("%s %s: held; %s" % (prop, tier, {k: c[k] for k in ("paths", "assertions_discharged", "traces_validated_against_impl", "solver_s", "obligations", "discharged", "bounds_not_exhausted") if k in c}), "%.0f s" % (time.time() - ctx.t0))
        sys.exit(0)
    except NoAnswer as e:
        ctx.cov.setdefault("explanation", "no answer: %s" % e)
        ctx.cov.setdefault("states", 0); ctx.cov.setdefault("transitions", 0); ctx.cov.setdefault("traces_validated_against_impl", 0)
        write_evidence(ctx, level, 0)
        print("NO ANSWER for %s: %s" % (prop, e)); sys.exit(3)
    finally: ctx.cleanup()
if __name__ == "__main__": main()
