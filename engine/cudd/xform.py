"""Turns CUDD's C sources into C++ over symbolic node handles: `DdNode *` becomes the class DdNodeP, and the definition of
every function named on the command line is renamed real_NAME while calls to it stay (they reach the contract of NAME)."""
import re, sys
def blank(s):                                   # comments out, strings kept
    out = []; i = 0
    while i < len(s):
        if s.startswith("/*", i): j = s.find("*/", i + 2) + 2; out.append(re.sub(r"[^\n]", " ", s[i:j])); i = j
        elif s.startswith("//", i): j = s.find("\n", i); j = len(s) if j < 0 else j; i = j
        elif s[i] == '"' or s[i] == "'":
            q = s[i]; j = i + 1
            while s[j] != q: j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1]); i = j + 1
        else: out.append(s[i]); i += 1
    return "".join(out)
def pointers(s):
    out = []; i = 0
    for m in re.finditer(r"\b(?:const\s+)?(?:struct\s+)?DdNode\b(\s*const\b)?\s*\*", s):
        if m.start() < i: continue
        out.append(s[i:m.start()]); out.append("DdNodeP "); i = m.end()
        # further declarators of the same declaration lose one star each
        j = i; depth = 0; seg = []
        while j < len(s):
            c = s[j]
            if c in "([{": depth += 1
            elif c in ")]}":
                if depth == 0: break
                depth -= 1
            elif c == ";": break
            elif c == "," and depth == 0:
                k = re.match(r",(\s*)\*\s*(?=[*A-Za-z_])", s[j:])
                if not k: 
                    if not re.match(r",\s*[A-Za-z_]\w*\s*[,;=\[]", s[j:]): break
                    seg.append(c); j += 1; continue          # "DdNode *a, b": not a pointer (does not occur)
                seg.append("," + k.group(1)); j += k.end(); continue
            seg.append(c); j += 1
        if "DdNode" in "".join(seg): continue
        out.append("".join(seg)); i = j
    out.append(s[i:]); return "".join(out)
def balanced(s, i, o, c):
    d = 0
    while i < len(s):
        if s[i] == o: d += 1
        elif s[i] == c:
            d -= 1
            if d == 0: return i + 1
        i += 1
    return -1
def rename(s, names):
    for n in names:
        for m in list(re.finditer(r"\b%s\s*\(" % n, s)):
            e = balanced(s, m.end() - 1, "(", ")")
            if e > 0 and re.match(r"\s*\{", s[e:]):
                ls = max(s.rfind(";", 0, m.start()), s.rfind("}", 0, m.start())) + 1
                head = s[ls:m.start()]
                s = s[:m.start()] + "real_" + n + s[m.start() + len(n):]
                if re.search(r"\bstatic\b", head): s = s[:ls] + re.sub(r"\bstatic\b", "      ", head, count=1) + s[m.start():]
                break
        else: sys.exit("xform: no definition of %s" % n)
        s = re.sub(r"\bstatic\b([^;{}()]*\b%s\s*\([^;{}]*\)\s*;)" % n, r"\1", s)
    return s
src, dst = sys.argv[1:3]
s = blank(open(src).read())
s = rename(pointers(s), sys.argv[3:])
if src.endswith(".c"): s = re.sub(r'^\s*#\s*include.*$', "", s, flags=re.M); s = '#include "ksym.h"\n' + s
s = re.sub(r"\btemplate\b", "template_", s); s = re.sub(r"\bnew\b", "new_", s); s = re.sub(r"\bthis\b", "this_", s)
open(dst, "w").write(s)
