"""C31: symbolic execution of tools/StructuredSlugsParser/compiler.py (checks/symcompiler.py), reported through run.py."""
import os, json, shutil, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
ASSUME = ["The specification text is the one printed from the task's grammar (sections, one constraint per line); layouts and identifiers outside it are not explored.",
  "Numerals of the specification are placeholder tokens that the program's own int() turns into symbolic integers; arithmetic and comparisons on them are 14-bit solver terms, every other use enumerates their values.",
  "Trusts z3 (z3-solver of the pre-installed tool environment); sampled paths are run again with the unmodified program and judged on its actual output."]
TASKWORDS = "tasks: range = one variable, every range with bounds 0..9 and up to 20 (thorough 70) values, with and without --thorougly; ranges = two variables, up to 6 (12) values; sections = all variable kinds and all six constraint sections; file = several lines per section incl. prefix-form lines and comments; compare<op>/primed<op>/lsb<op>/deep<op> = numeric comparisons over symbolic constants 0..4 (6; primed 9; lsb 20), sums and LEASTSIGNIFICANTBITOVERWRITES; connective*/connectives*/chain* = one, two and three Boolean connectives in every bracketing and three spellings"
def run(ctx, R):
    out = os.path.join(ctx.scratch, "c31"); cap = 300 if ctx.tier == "quick" else 5000
    cmd = ["python3-vt", os.path.join(HERE, "symcompiler.py"), R.REPO, ctx.tier, out, str(cap)]
    r, t = R.sh(cmd, timeout=cap * 4, cwd=ctx.scratch, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    js = [l for l in t.splitlines() if l.startswith("[{")]
    if r != 0 or not js: raise R.NoAnswer("symbolic execution of the structured compiler ended with %d: %s" % (r, t[-2000:]))
    rs = json.loads(js[-1]); c = ctx.cov
    c["states"] = c["paths"] = sum(x["paths"] for x in rs); c["transitions"] = sum(x["decisions"] for x in rs); c["sat_queries"] = sum(x["queries"] for x in rs)
    c["assertions_discharged"] = sum(x["asserts"] for x in rs); c["solver_s"] = round(sum(x["solver_s"] for x in rs), 1); c["traces_validated_against_impl"] = sum(len(x["samples"]) for x in rs)
    c["what_states_are"] = "feasible paths of compiler.py (each covers all values of the symbolic integers satisfying its path condition); transitions = branches on symbolic integers and on the structure of the constraint"
    c["functions_encoded"] = ["performConversion", "parseLTL", "clean_tree", "flatten_as_much_as_possible", "parseSimpleFormula", "computeCalculationSubformula", "recurseCalculationSubformula", "isValidRecursiveSlugsProperty", "translateToSlugsFormat", "Parser.parse"]
    c["bounds"] = TASKWORDS; c["bounds_exhausted"] = ["%s (%d paths, %.1f s)" % (x["task"], x["paths"], x["wall"]) for x in rs if not x["left"]]; c["bounds_not_exhausted"] = ["%s: %d paths explored, stopped by time" % (x["task"], x["paths"]) for x in rs if x["left"]]
    c["exhaustive"] = not c["bounds_not_exhausted"]; ctx.samples = [s for x in rs for s in x["samples"]][:3]
    v = []
    for x in rs:
        for m in x["violations"]:
            src = os.path.join(out, x["task"]); d = os.path.join(VERIF, "evidence", "replay", "C31_" + hashlib.sha1(m.encode()).hexdigest()[:10]); shutil.rmtree(d, ignore_errors=True); os.makedirs(os.path.dirname(d), exist_ok=True)
            if os.path.isdir(src): shutil.copytree(src, d)
            else: os.makedirs(d)
            open(d + "/README", "w").write(m + "\nReplay: python3 /repo/tools/StructuredSlugsParser/compiler.py [options as in the file 'options'] spec.structuredslugs\n"); v.append((m, d))
    if not v:
        e = [y for x in rs for y in x["errors"]]
        if e: raise R.NoAnswer("structured compiler: " + e[0][-1500:])
        if any(x["paths"] == 0 for x in rs): raise R.NoAnswer("a family of specifications had no feasible path")
    return v
