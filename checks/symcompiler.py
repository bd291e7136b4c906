#!/usr/bin/env python3-vt
"""symcompiler.py REPO TIER OUTDIR

C31: executes tools/StructuredSlugsParser/compiler.py symbolically. The program's own Python code runs on specifications whose
variable ranges and numerals are symbolic integers (SymInt); every branch on one of them is decided by z3 and both outcomes are
followed. At the end of each path z3 decides, for every value of the symbolic integers on the path and every valuation of the bits,
whether the printed prefix formulas mean what the structured constraints mean. Prints one JSON object."""
import sys, os, io, json, time, re, contextlib, itertools, subprocess, multiprocessing, builtins, traceback
import z3
REPO, TIER, OUT = sys.argv[1:4]
DIR = os.path.join(REPO, "tools", "StructuredSlugsParser"); SRC = os.path.join(DIR, "compiler.py")
W = 14  # bits of the integers in the encoding
def bv(v): return v if z3.is_expr(v) else z3.BitVecVal(v, W)

class Infeasible(Exception): pass
class Violation(Exception): pass
class Exec:
    """One path; decisions beyond the given prefix are explored and recorded."""
    def __init__(self, prefix):
        self.prefix, self.pos, self.trace, self.todo = prefix, 0, [], []
        self.solver = z3.Solver(); self.queries = 0; self.time = 0.0; self.vars = []; self.placeholders = {}
    def sat(self, *a):
        self.queries += 1; t = time.time(); r = self.solver.check(*a); self.time += time.time() - t
        if r == z3.unknown: raise RuntimeError("solver gave up")
        return r == z3.sat
    def choose(self, n):
        """A structural choice: every alternative is explored."""
        if self.pos < len(self.prefix): k = self.prefix[self.pos]
        else:
            k = 0
            for j in range(n - 1, 0, -1): self.todo.append(self.trace + [j])
        self.pos += 1; self.trace = self.trace + [k]; return k
    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.prefix): k = self.prefix[self.pos]
        else:
            t, f = self.sat(c), self.sat(z3.Not(c))
            if t and f: self.todo.append(self.trace + [0]); k = 1
            elif t: return True
            else: return False
        # forced outcomes are not recorded, so a recorded one is always a real branch
        self.pos += 1; self.trace = self.trace + [k]; self.solver.add(c if k else z3.Not(c)); return bool(k)
E_ = None
class SymBool:
    def __init__(self, e): self.e = e
    def __bool__(self): return E_.decide(self.e)
    def __eq__(self, o): return bool(self) == bool(o)
    def __hash__(self): return hash(bool(self))
def conc(x): return x
class SymInt:
    """A symbolic integer with Python's int interface; operations without a symbolic meaning fork over the possible values."""
    def __init__(self, e): self.e = e
    def force(self):
        while True:
            s = z3.simplify(self.e)
            if z3.is_bv_value(s): return s.as_signed_long()
            if not E_.sat(): raise Infeasible()
            v = E_.solver.model().eval(self.e, model_completion=True)
            # the smallest value first, so that the branching does not depend on the solver's model
            lo = v.as_signed_long()
            while lo > -40 and E_.sat(self.e < lo): lo = E_.solver.model().eval(self.e, model_completion=True).as_signed_long()
            if E_.decide(self.e == lo): return lo
    def __index__(self): return self.force()
    __int__ = __index__
    def __float__(self): return float(self.force())
    def __hash__(self): return hash(self.force())
    def __bool__(self): return E_.decide(self.e != 0)
    def __str__(self):
        for k, v in E_.placeholders.items():
            if v.e.eq(self.e): return k
        k = "9%05d" % len(E_.placeholders); E_.placeholders[k] = self; return k
    __repr__ = __str__
    def __format__(self, f): return str(self) if f in ("", "d") else format(self.force(), f)
    def bit_length(self): return self.force().bit_length()
def _op(name, f, cmp=False):
    def g(self, o):
        if isinstance(o, bool): o = int(o)
        if not isinstance(o, (int, SymInt)): return NotImplemented
        r = f(self.e, bv(o.e if isinstance(o, SymInt) else o)); return SymBool(r) if cmp else SymInt(r)
    setattr(SymInt, "__%s__" % name, g)
def _rop(name, f):
    def g(self, o):
        if not isinstance(o, int): return NotImplemented
        return SymInt(f(bv(o), self.e))
    setattr(SymInt, "__r%s__" % name, g)
def fdiv(a, b): return z3.UDiv(a, b)   # operands are non-negative by construction of the ranges
def fmod(a, b): return z3.URem(a, b)
for n, f in (("add", lambda a, b: a + b), ("sub", lambda a, b: a - b), ("mul", lambda a, b: a * b), ("floordiv", fdiv), ("mod", fmod), ("and", lambda a, b: a & b), ("or", lambda a, b: a | b), ("xor", lambda a, b: a ^ b), ("lshift", lambda a, b: a << b), ("rshift", lambda a, b: a >> b)): _op(n, f); _rop(n, f)
for n, f in (("lt", lambda a, b: a < b), ("le", lambda a, b: a <= b), ("gt", lambda a, b: a > b), ("ge", lambda a, b: a >= b), ("eq", lambda a, b: a == b), ("ne", lambda a, b: a != b)): _op(n, f, True)
SymInt.__neg__ = lambda s: SymInt(-s.e)
SymInt.__pow__ = lambda s, o: SymInt(bv(s.force() ** int(o)))
SymInt.__rpow__ = lambda s, o: SymInt(bv(o ** s.force()))
SymInt.__divmod__ = lambda s, o: (s // o, s % o)
SymInt.__truediv__ = lambda s, o: s.force() / (o.force() if isinstance(o, SymInt) else o)
SymInt.__rtruediv__ = lambda s, o: o / s.force()
class _IntMeta(type):
    def __instancecheck__(c, x): return builtins.isinstance(x, (int, SymInt))
    def __call__(c, x=0, *a):
        if builtins.isinstance(x, SymInt): return x
        if builtins.isinstance(x, str) and E_ is not None and x.strip() in E_.placeholders: return E_.placeholders[x.strip()]
        return int(x, *a)
class IntHook(metaclass=_IntMeta): pass
CODE = None
def run_compiler(text, options):
    """Runs the program's code in this process; returns what it prints."""
    global CODE
    if CODE is None:
        sys.path.insert(0, DIR); sys.dont_write_bytecode = True; CODE = compile(open(SRC).read(), SRC, "exec")
    ns = {"__name__": "compiler", "__file__": SRC}
    def op(name, *a, **k):
        if name == "@spec": return io.StringIO(text)
        return builtins.open(name, *a, **k)
    ns["open"] = op; ns["int"] = IntHook
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        exec(CODE, ns); ns["performConversion"]("@spec", options)
    return out.getvalue()
# ---------------------------------------------------------------------- specifications
class Spec:
    def __init__(self): self.vars, self.lines, self.thorough = [], [], False   # vars: (section, name, None | (min, max)); lines: (section, text, meaning or None)
    def text(self):
        order, secs = [], {}
        for s, n, r in self.vars: secs.setdefault(s, []).append(n if r is None else "%s: %s...%s" % (n, r[0], r[1]))
        for s, t, m in self.lines: secs.setdefault(s, []).append(t)
        return "".join("[%s]\n%s\n\n" % (s, "\n".join(l)) for s, l in secs.items())
class Ev:
    """Meaning of structured expressions over the bits that the output declares."""
    def __init__(self, spec, bits, num): self.spec, self.bits, self.num = spec, bits, num
    def var(self, n): return [v for v in self.spec.vars if v[1] == n][0]
    def n(self, e, primed):  # numeric; value as bit vector
        k = e[0]
        if k == "c": return self.num(e[1])
        if k == "v":
            p = primed or e[2]; v = self.var(e[1]); r = self.num(v[2][0])
            for i, b in enumerate(self.bits[e[1]]): r = r + z3.If(z3.Bool(b + ("'" if p else "")), bv(1 << i), bv(0))
            return r
        if k == "+": return self.n(e[1], primed) + self.n(e[2], primed)
        if k == "lsb": w = len(self.bits[e[1][1]]); return self.n(e[1], primed) + ((self.n(e[2], primed) >> w) << w)
        raise RuntimeError(k)
    def b(self, e, primed=False):
        k = e[0]
        if k == "T": return z3.BoolVal(True)
        if k == "F": return z3.BoolVal(False)
        if k == "a": return z3.Bool(e[1] + ("'" if primed or e[2] else ""))
        if k == "!": return z3.Not(self.b(e[1], primed))
        if k == "X": return self.b(e[1], True)
        if k in CMP: return CMP[k](self.n(e[1], primed), self.n(e[2], primed))
        l, r = self.b(e[1], primed), self.b(e[2], primed)
        return {"&": z3.And(l, r), "|": z3.Or(l, r), "^": z3.Xor(l, r), "->": z3.Implies(l, r), "<->": l == r}[k]
CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "=": lambda a, b: a == b, "!=": lambda a, b: a != b}
PREC = {"&": 5, "|": 4, "^": 3, "->": 2, "<->": 1}
def ntext(e):
    k = e[0]
    if k == "c": return str(e[1])
    if k == "v": return e[1] + ("'" if e[2] else "")
    if k == "+": return (ntext(e[1]) if e[1][0] != "+" else "(" + ntext(e[1]) + ")") + "+" + ntext(e[2])
    if k == "lsb": return ntext(e[1]) + " LEASTSIGNIFICANTBITOVERWRITES " + ntext(e[2])
def btext(e, sp, full):
    """sp picks spellings; full: brackets everywhere."""
    k = e[0]
    if k == "T": return "TRUE"
    if k == "F": return "FALSE"
    if k == "a": return e[1] + ("'" if e[2] else "")
    def wrap(x, need): t = btext(x, sp, full); return "(" + t + ")" if need or (full and x[0] in PREC) else t
    if k == "!": return ("!" if sp == 0 else "~" if sp == 1 else "! ") + wrap(e[1], e[1][0] in PREC)
    if k == "X": return ("X " if sp == 0 else "next " if sp == 1 else "()") + wrap(e[1], e[1][0] in PREC)
    if k in CMP: return ntext(e[1]) + (k if sp == 0 else " " + k + " ") + ntext(e[2])
    o = {"&": ["&", "&&", "/\\"], "|": ["|", "||", "\\/"], "^": ["^"] * 3, "->": ["->", "-->", "->"], "<->": ["<->", "<-->", "<->"]}[k][sp]
    return wrap(e[1], e[1][0] in PREC and PREC[e[1][0]] < PREC[k]) + " " + o + " " + wrap(e[2], e[2][0] in PREC and PREC[e[2][0]] <= PREC[k])
# ---------------------------------------------------------------------- reading the output
def prefix(tokens, names):
    """z3 meaning of a slugs prefix formula."""
    pos = [0]; buf = []
    def rec():
        if pos[0] >= len(tokens): raise Violation("the printed formula is truncated: " + " ".join(tokens))
        t = tokens[pos[0]]; pos[0] += 1
        if t == "1": return z3.BoolVal(True)
        if t == "0": return z3.BoolVal(False)
        if t == "!": return z3.Not(rec())
        if t in "&|^": a = rec(); b = rec(); return z3.And(a, b) if t == "&" else z3.Or(a, b) if t == "|" else z3.Xor(a, b)
        if t == "$":
            if not tokens[pos[0]].isdigit(): raise Violation("malformed buffer in the printed formula")
            n = int(tokens[pos[0]]); pos[0] += 1; buf.append([]); r = z3.BoolVal(False)
            for _ in range(n): r = rec(); buf[-1].append(r)
            buf.pop(); return r
        if t == "?":
            k = int(tokens[pos[0]]); pos[0] += 1
            if not buf or k < 0 or k >= len(buf[-1]): raise Violation("the printed formula refers to a buffer entry that does not exist yet")
            return buf[-1][k]
        if t in names: return z3.Bool(t)
        raise Violation("the printed formula uses the undeclared name " + t)
    r = rec()
    if pos[0] != len(tokens): raise Violation("the printed formula has superfluous tokens: " + " ".join(tokens))
    return r
IO_ = ["INPUT", "OUTPUT", "OBSERVABLE_INPUT", "UNOBSERVABLE_INPUT", "CONTROLLABLE_INPUT"]
def judge(spec, out, num, valid):
    """num: numeral -> bit vector. valid(formula, message): the solver decides the formula for all remaining symbols."""
    secs, cur = {}, None
    for l in out.split("\n"):
        if l.startswith("["):
            cur = l.strip()
            if not cur.endswith("]") or cur[1:-1] in secs: raise Violation("malformed or repeated section header: " + l)
            cur = cur[1:-1]; secs[cur] = []
        elif l.strip() == "": continue
        elif cur is None: raise Violation("output before the first section: " + l)
        else: secs[cur].append(l.strip())
    bits, names = {}, set()
    for s in IO_:
        want = [v for v in spec.vars if v[0] == s]; got = [l for l in secs.get(s, []) if not l.startswith("#")]; p = 0
        for v in want:
            if v[2] is None:
                if p >= len(got) or got[p] != v[1]: raise Violation("the Boolean %s is not declared in [%s]" % (v[1], s))
                names.add(v[1]); names.add(v[1] + "'"); p += 1; continue
            mine = []
            while p < len(got) and got[p].startswith(v[1] + "@"): mine.append(got[p]); p += 1
            lo, hi = num(v[2][0]), num(v[2][1]); n = len(mine)
            for i, g in enumerate(mine):
                if i == 0:
                    m = re.fullmatch(re.escape(v[1]) + r"@0\.(-?\d+)\.(-?\d+)", g)
                    if not m: raise Violation("the first bit of %s is declared as %s" % (v[1], g))
                    valid(z3.And(num(m.group(1)) == lo, num(m.group(2)) == hi), "the first bit of %s does not carry its range: %s" % (v[1], g))
                elif g != "%s@%d" % (v[1], i): raise Violation("the bits of %s are declared wrongly: %s" % (v[1], mine))
                names.add(g); names.add(g + "'")
            d = hi - lo; valid(z3.And(d < (1 << n), d >= ((1 << n) // 2)), "%s has the wrong number of bits (%d)" % (v[1], n)); bits[v[1]] = mine
        if p != len(got): raise Violation("unexpected declaration in [%s]: %s" % (s, got[p]))
    ev = Ev(spec, bits, num)
    for s in ("ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"):
        got = [prefix(l.split(), names) for l in secs.get(s, []) if not l.startswith("#")]; mine = [ev.b(m) for (t, x, m) in spec.lines if t == s and m is not None]
        comments = [x for (t, x, m) in spec.lines if t == s and m is None and x.strip()]
        if [c for c in secs.get(s, []) if c.startswith("#") and not c.startswith("## Variable limits")] != comments: raise Violation("the comments of [%s] are not kept" % s)
        if s.endswith("LIVENESS"):
            if len(got) != len(mine): raise Violation("[%s] has %d properties instead of %d" % (s, len(got), len(mine)))
            for a, b in zip(got, mine): valid(a == b, "a property in [%s] is translated wrongly" % s)
            continue
        lim = []
        for v in spec.vars:
            if v[2] is None or ("ENV" if v[0].endswith("INPUT") else "SYS") != s[:3]: continue
            d = num(v[2][1]) - num(v[2][0])
            for pr in ([""] if s.endswith("INIT") else ["'", ""] if spec.thorough else ["'"]):
                x = bv(0)
                for i, b in enumerate(bits[v[1]]): x = x + z3.If(z3.Bool(b + pr), bv(1 << i), bv(0))
                lim.append(x <= d)
        valid(z3.And(got + [True]) == z3.And(mine + lim + [True]), "the formulas in [%s] do not mean the constraints and variable ranges" % s)
    for s in secs:
        if s not in IO_ and s not in ("ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"): raise Violation("unknown section " + s)
# ---------------------------------------------------------------------- tasks: families of specifications
def sym(lo, hi):
    v = z3.BitVec("k%d" % len(E_.vars), W); E_.vars.append(v); E_.solver.add(v >= lo, v <= hi); return SymInt(v)
def pick(*a): return a[E_.choose(len(a))]
def rng(name, sec, lo, hi, size):
    a = sym(lo, hi); b = sym(lo, hi + size); E_.solver.add(a.e <= b.e, b.e - a.e < size); return (sec, name, (str(a), str(b)))
def base(*ranges):
    s = Spec(); s.vars = [("INPUT", "a", None), ("OUTPUT", "b", None), ("OUTPUT", "c_", None)] + list(ranges); return s
def t_range(big):  # one variable, any range
    s = Spec(); sec = pick("INPUT", "OUTPUT"); s.thorough = bool(E_.choose(2)); s.vars = [("INPUT", "a", None), rng("x", sec, 0, 9, big), ("OUTPUT", "b", None)]
    if sec == "INPUT": s.vars.sort(key=lambda v: v[0])
    k = E_.choose(3)
    if k: s.lines.append((["ENV_INIT", "SYS_INIT"][k - 1], "a", ("a", "a", False)))
    return s
def t_ranges(big):  # several variables of different owners
    s = Spec(); s.vars = [rng("x", "INPUT", 0, 2, big), rng("y", "OUTPUT", 0, 2, big)]; s.lines.append(("SYS_TRANS", "x' = y", ("=", ("v", "x", True), ("v", "y", False)))); return s
def t_sections(_):
    s = Spec(); s.vars = [("OBSERVABLE_INPUT", "p", (str(0), str(4))), ("UNOBSERVABLE_INPUT", "q", None), ("CONTROLLABLE_INPUT", "r", (str(1), str(6))), ("OUTPUT", "o", (str(0), str(2)))]; s.thorough = bool(E_.choose(2))
    s.lines.append((pick("ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"), "p <= r", ("<=", ("v", "p", False), ("v", "r", False)))); return s
def line(s, sec, e, sp=0, full=False): s.lines.append((sec, btext(e, sp, full), e))
def num(depth, vs):
    k = E_.choose((2 if vs else 1) + (1 if depth else 0))
    if k == 0: return ("c", str(sym(0, 6 if TIER == "thorough" else 4)))
    if k == 1 and vs: return ("v", vs[E_.choose(len(vs))], False)
    return ("+", num(depth - 1, vs), num(depth - 1, vs))
def t_compare(op):  # constants and sums against variables of any range
    def f(_):
        s = base(rng("x", "INPUT", 0, 2 if TIER == "thorough" else 1, 6 if TIER == "thorough" else 4)); l = num(1, ["x"]); r = num(0, ["x"])
        if E_.choose(2): l, r = r, l
        line(s, "ENV_TRANS", (op, l, r)); return s
    return f
def t_primed(op):  # two variables, primes and the next operator
    def f(_):
        r1, r2 = pick(((0, 2), (1, 3)), ((1, 6), (0, 1)), ((3, 3), (0, 4)))
        s = base(("INPUT", "x", tuple(map(str, r1))), ("OUTPUT", "y", tuple(map(str, r2)))); k = E_.choose(5); c = ("c", str(sym(0, 9))); x, y, xp, yp = ("v", "x", False), ("v", "y", False), ("v", "x", True), ("v", "y", True)
        e = [(op, ("+", x, c), yp), (op, ("+", xp, y), ("+", yp, c)), (op, ("+", ("+", x, c), y), ("+", y, x)), ("X", (op, ("+", x, y), c)), (op, c, ("+", ("+", xp, x), ("+", y, yp)))][k]
        line(s, "SYS_TRANS", e, pick(0, 1)); return s
    return f
def t_deep(op):
    def f(_):
        s = base(rng("x", "INPUT", 0, 2, 4), ("OUTPUT", "y", (str(1), str(5)))); l = num(2, ["x", "y"]); r = num(1, ["y"]); line(s, "SYS_TRANS", (op, l, r)); return s
    return f
def t_lsb(op):
    def f(_):
        s = base(("INPUT", "x", (str(0), pick("1", "3", "2") if TIER == "thorough" else pick("1", "3"))), ("OUTPUT", "y", (str(0), pick("7", "9", "15") if TIER == "thorough" else "7"))); x, y = pick(("x", False), ("x", True)), pick(("y", False), ("y", True)); e = ("lsb", ("v",) + x, ("v",) + y); c = ("c", str(sym(0, 20)))
        line(s, "SYS_TRANS", (op, e, c) if E_.choose(2) else (op, ("+", e, c), ("v", "y", False))); return s
    return f
def leaf(n):
    return [("a", "a", False), ("a", "b", False), ("a", "c_", True), ("T",), ("<=", ("v", "x", False), ("c", str(sym(0, 4)))), ("F",)][E_.choose(n)]
def formula(depth, ops, n):
    k = E_.choose(1 + len(ops) if depth else 1)
    if k == 0: return leaf(n)
    o = ops[k - 1]
    if o in "!X": return (o, formula(depth - 1, ops, n))
    return (o, formula(depth - 1, ops, n), formula(depth - 1, ops, n))
def noprime(e, inX=False):
    if e[0] == "a": return not (inX and e[2])
    if e[0] == "X": return not inX and noprime(e[1], True)
    return all(noprime(x, inX) for x in e[1:] if isinstance(x, tuple) and x[0] not in ("v", "c", "+"))
def t_bool1(sp):  # one connective over every kind of leaf, then two connectives
    def f(_):
        s = base(("INPUT", "x", (str(1), str(4)))); e = formula(1, ["!", "X", "&", "|", "^", "->", "<->"], 6)
        if not noprime(e): raise Infeasible()
        line(s, pick("SYS_TRANS", "SYS_LIVENESS"), e, sp, bool(E_.choose(2))); return s
    return f
def t_bool2(sp):
    def f(_):
        s = base(("INPUT", "x", (str(0), str(2)))); e = formula(2, ["!", "X", "&", "|", "^", "->", "<->"], 2 if not sp and TIER == "thorough" else 1)
        if not noprime(e): raise Infeasible()
        line(s, "ENV_LIVENESS", e, sp, bool(E_.choose(2))); return s
    return f
def t_bool3(sp):  # chains of three connectives
    def f(_):
        s = base(("INPUT", "x", (str(0), str(2)))); ops = ["&", "|", "^", "->", "<->"]; o = [ops[E_.choose(5)] for _ in range(3)]; l = [("a", "a", False), ("a", "b", False), ("a", "c_", True), ("=", ("v", "x", False), ("c", "1"))]
        k = E_.choose(3); e = (o[2], (o[1], (o[0], l[0], l[1]), l[2]), l[3]) if k == 0 else (o[1], (o[0], l[0], l[1]), (o[2], l[2], l[3])) if k == 1 else (o[0], l[0], (o[1], l[1], (o[2], l[2], ("!", l[3]))))
        line(s, "SYS_LIVENESS", e, sp, False); return s
    return f
def t_file(_):  # several lines per section: structured, already in prefix form, comments
    s = base(("INPUT", "x", (str(0), str(4)))); A, B = ("a", "a", False), ("a", "b", False); pool = [("a -> b", ("->", A, B)), ("| ! a b", ("|", ("!", A), B)), ("# a comment & more", None), ("^ a 1", ("!", A)), ("x != 3", ("!=", ("v", "x", False), ("c", "3"))), ("", None), ("$ 2 & a b ! ? 0", ("!", ("&", A, B))), ("0", ("F",)), ("! ! b", B)]
    for _ in range(2 if TIER == "thorough" else 1): s.lines.append((pick("ENV_INIT", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"),) + pool[E_.choose(len(pool))])
    s.lines.append((pick("SYS_LIVENESS", "ENV_TRANS", "SYS_INIT"), "b | x>2", ("|", B, (">", ("v", "x", False), ("c", "2"))))); return s
OPS = ["<", "<=", ">", ">=", "=", "!="]
TASKS = {"range": (t_range, 20), "ranges": (t_ranges, 6), "sections": (t_sections, 0), "file": (t_file, 0)}
for o in OPS: TASKS["compare" + o] = (t_compare(o), 0); TASKS["primed" + o] = (t_primed(o), 0); TASKS["lsb" + o] = (t_lsb(o), 0)
for q in range(3): TASKS["connective%d" % q] = (t_bool1(q), 0); TASKS["connectives%d" % q] = (t_bool2(q), 0); TASKS["chain%d" % q] = (t_bool3(q), 0)
if TIER == "thorough":
    TASKS["range"] = (t_range, 70); TASKS["ranges"] = (t_ranges, 12)
    for o in OPS: TASKS["deep" + o] = (t_deep(o), 0)
def path(prefix_, fn, arg):
    """Executes one path; returns (status, exec, spec, message)."""
    global E_; E_ = Exec(prefix_); spec = None
    try:
        spec = fn(arg); out = run_compiler(spec.text(), spec.thorough); n = [0]
        def num_(t): t = str(t); return E_.placeholders[t].e if t in E_.placeholders else bv(int(t))
        def valid(f, m):
            n[0] += 1
            if E_.sat(z3.Not(f)): E_.model = E_.solver.model(); raise Violation(m)
        judge(spec, out, num_, valid); E_.asserts = n[0]; return "ok", spec, "", None
    except Infeasible: return "infeasible", spec, "", None
    except Violation as v:
        m = getattr(E_, "model", None)
        if m is None:
            if not E_.sat(): return "infeasible", spec, "", None
            m = E_.solver.model()
        return "violation", spec, str(v), {k: m.eval(x.e, model_completion=True).as_signed_long() for k, x in E_.placeholders.items()}
    except RuntimeError as x:
        return "error", spec, "%s" % traceback.format_exc(), None
    except (Exception, SystemExit) as x:
        if not E_.sat(): return "infeasible", spec, "", None
        m = E_.solver.model(); return "violation", spec, "the compiler fails on a constraint of the language: %s: %s" % (type(x).__name__, x), {k: m.eval(y.e, model_completion=True).as_signed_long() for k, y in E_.placeholders.items()}
def substitute(t, model):
    for k, v in (model or {}).items(): t = t.replace(k, str(v))
    return t
def confirm(spec, model, d):
    """Runs the unmodified program on the concrete specification and judges its output."""
    import copy
    c = copy.deepcopy(spec); c.vars = [(a, b, None if r is None else tuple(substitute(x, model) for x in r)) for a, b, r in c.vars]
    def se(e): return tuple(se(x) if isinstance(x, tuple) else substitute(x, model) if isinstance(x, str) else x for x in e)
    c.lines = [(a, substitute(t, model), None if m is None else se(m)) for a, t, m in c.lines]
    os.makedirs(d, exist_ok=True); f = os.path.join(d, "spec.structuredslugs"); open(f, "w").write(c.text()); opts = ["--thorougly"] if c.thorough else []
    p = subprocess.run(["python3", "-B", SRC] + opts + [f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=60); open(os.path.join(d, "stdout"), "w").write(p.stdout); open(os.path.join(d, "stderr"), "w").write(p.stderr); open(os.path.join(d, "options"), "w").write(" ".join(opts))
    if p.returncode != 0: return "the compiler fails with exit status %d on a constraint of the language" % p.returncode
    def valid(g, m):
        s = z3.Solver(); s.add(z3.Not(g))
        if s.check() == z3.sat: raise Violation(m + " (for example: %s)" % s.model())
    try: judge(c, p.stdout, lambda t: bv(int(substitute(str(t), model))), valid)
    except Violation as v: return str(v)
    return None
def work(job):
    name, start, cap = job; fn, arg = TASKS[name]; t0 = time.time(); todo = [start]; st = {"task": name, "paths": 0, "queries": 0, "asserts": 0, "solver_s": 0.0, "decisions": 0, "violations": [], "errors": [], "samples": [], "left": 0}
    while todo:
        if time.time() - t0 > cap: st["left"] = len(todo); break
        r, spec, msg, model = path(todo.pop(), fn, arg); st["queries"] += E_.queries; st["solver_s"] += E_.time; st["decisions"] += len(E_.trace); todo += E_.todo
        if r == "infeasible": continue
        st["paths"] += 1; st["asserts"] += getattr(E_, "asserts", 0)
        if r == "error": st["errors"].append(msg); break
        if r == "violation":
            real = confirm(spec, model, os.path.join(OUT, name.replace("/", "_"))); (st["violations"] if real else st["errors"]).append("%s: %s" % (name, real or ("not confirmed by the real program: " + msg))); break
        if st["paths"] % 400 == 7:  # cross-check a sample against the unmodified program
            if not E_.sat(): continue
            m = E_.solver.model(); model = {k: m.eval(x.e, model_completion=True).as_signed_long() for k, x in E_.placeholders.items()}; real = confirm(spec, model, os.path.join(OUT, "s_" + name.replace("/", "_")))
            if real: st["violations"].append("%s: %s" % (name, real)); os.rename(os.path.join(OUT, "s_" + name.replace("/", "_")), os.path.join(OUT, name.replace("/", "_"))); break
            st["samples"].append(substitute(spec.text(), model))
    st["wall"] = round(time.time() - t0, 1); return st
if __name__ == "__main__":
    cap = float(sys.argv[4]) if len(sys.argv) > 4 else 120 if TIER == "quick" else 3000
    only = sys.argv[5:] or sorted(TASKS); os.makedirs(OUT, exist_ok=True)
    with multiprocessing.Pool(min(8, os.cpu_count() or 8)) as p: res = p.map(work, [(n, [], cap) for n in only], chunksize=1)
    print(json.dumps(res))
