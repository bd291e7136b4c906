"""C27/C28: the BF library driven directly (engine/bf), symbolically and - for replays - over the real libcudd."""
import os, json, shutil, hashlib, glob
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
def runner(tasks):
    def run(ctx, R):
        out = ctx.sub("bf"); p = R.start_build("build_bf.sh", out); R.wait_build(p, out, "the BF driver"); ctx.cov["build_s"] = round(__import__("time").time() - ctx.t0, 1)
        runs, viol, validated, cross = [], [], 0, 0
        for check, shape, cap, mandatory in tasks[ctx.tier]:
            if viol: break
            wd = ctx.sub("w"); shutil.rmtree(wd); os.makedirs(wd)
            r, t = R.sh([out + "/symbf", "--check", check, "--shape", shape, "--workdir", wd, "--jobs", str(os.cpu_count() or 8), "--timeout", str(cap), "--samples", "10"] + (["--cross", "40"] if cross < 40 else []), timeout=cap + 90)
            js = [l for l in t.splitlines() if l.startswith("{")]
            if r not in (0, 1, 3) or not js: raise R.NoAnswer("symbolic execution of %s %s ended with %d: %s" % (check, shape, r, t[-1500:]))
            st = json.loads(js[-1]); runs.append(st); unconfirmed = []
            cexs = sorted(glob.glob(wd + "/cex_*.txt"))
            for c in cexs + sorted(glob.glob(wd + "/sample_*.txt"))[:10]:
                r2, t2 = R.sh([out + "/realbf", c], timeout=60); head = open(c).readline().strip("# \n")
                if "NOT-REPRODUCED" in t2:
                    if c in cexs: unconfirmed.append(head)
                    else:
                        validated += 1
                        if len(ctx.samples) < 3: ctx.samples.append({"check": check, "shape": shape, "operands_and_choices": open(c).read()[:1200]})
                    continue
                m = [l[11:] for l in t2.splitlines() if l.startswith("REPRODUCED ")]
                if not m and (r2 in (2,) or r2 == 124): raise R.NoAnswer("replay of %s ended with %d: %s" % (head, r2, t2[-500:]))
                msg = "%s %s: %s" % (check, shape, m[0] if m else "%s (the real library ends with %d)" % (head, r2))
                d = os.path.join(VERIF, "evidence", "replay", ctx.prop + "_" + hashlib.sha1(open(c, "rb").read()).hexdigest()[:10]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d); shutil.copy(c, d + "/counterexample.txt")
                open(d + "/README", "w").write(msg + "\nReplay: bash /verif/engine/build_bf.sh /tmp/bf && /tmp/bf/realbf counterexample.txt\n"); viol.append((msg, d)); break
            for q in sorted(glob.glob(wd + "/q*.cnf"))[:20]:
                r3, o3 = R.sh(["kissat", "-q", "-n", q], timeout=60) if shutil.which("kissat") else R.sh(["z3", "-dimacs", q], timeout=60)
                if "UNSATISFIABLE" in o3 or r3 == 20 or "unsat" in o3: cross += 1
                elif "SATISFIABLE" in o3 or r3 == 10: raise R.NoAnswer("second solver disagrees on " + q)
            shutil.rmtree(wd)
            if viol: break
            if st["violated"]: raise R.NoAnswer("counterexamples that the real library does not reproduce: %s" % unconfirmed[:5])
            if st["incomplete"] and mandatory: raise R.NoAnswer("exploration of %s %s did not finish within %d s" % (check, shape, cap))
            if st["witnesses"][0] == 0 and not st["incomplete"]: raise R.NoAnswer("vacuity: %s %s reached no final state" % (check, shape))
        c = ctx.cov; done = [r for r in runs if not r["incomplete"]]
        c["states"] = c["paths"] = sum(r["paths"] for r in runs); c["transitions"] = sum(r["decisions"] for r in runs); c["traces_validated_against_impl"] = validated
        c["what_states_are"] = "feasible symbolic paths of the library (each covers all operand functions satisfying its path condition); transitions = solver-decided branch points"
        c["sat_queries"] = sum(r["sat_queries"] for r in runs); c["assertions_discharged"] = sum(r["assertions"] for r in runs); c["solver_s"] = round(sum(r["solver_s"] for r in runs), 1); c["queries_cross_checked_by_second_solver"] = cross
        c["bounds"] = "shape n<variables>k<steps>"; c["functions_encoded"] = ["all of src/BFAbstractionLibrary except bddDump.cpp (debug drawings)"]
        c["bounds_exhausted"] = ["%s %s (%d paths, %.1f s)" % (r["check"], r["shape"], r["paths"], r["wall_s"]) for r in done]; c["bounds_not_exhausted"] = ["%s %s: %d paths explored, stopped by time" % (r["check"], r["shape"], r["paths"]) for r in runs if r["incomplete"]]
        c["exhaustive"] = not c["bounds_not_exhausted"]; c["runs"] = runs; return viol
    return run
