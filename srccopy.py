"""Copy of a C++ source tree in which every floating literal is spelled double(LIT).

The symbolic build compiles the code with the scalar type in place of `double`; a bare literal
keeps the built-in type, so `auto s = 0.0;`, a lambda returning `0.0` on one path or
std::max({x, 0.0}) would not have the type they have in the real program.  The copy says nothing
new to a compiler that sees the built-in type.  stage 1: floating literals, and `long double` is double; stage 2: also an
integer literal that is one branch of a conditional expression.  +10: axis and order parameters are of the scalar type and
string variables of a type whose comparisons are formulas, so that a harness can leave them open.
"""
import os, re
TOK = re.compile(r'''
 (?P<com>//[^\n]*|/\*.*?\*/) | (?P<raw>R"(?P<d>[^()\\\s]*)\(.*?\)(?P=d)") | (?P<str>"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*') |
 (?P<id>[A-Za-z_]\w*) | (?P<num>\.?\d(?:[eEpP][-+]|'(?=\w)|[\w.])*) | (?P<ws>\s+) | (?P<op>::|.)''', re.S | re.X)
FLT = re.compile(r"^(?:\d[\d']*\.[\d']*|\.\d[\d']*|\d[\d']*(?=[eE]))(?:[eE][-+]?\d+)?[fFlL]?$")
INT = re.compile(r"^\d+$")
def rewrite(text, stage):
    opts = stage > 9; stage %= 10
    toks = [(m.lastgroup if m.lastgroup != "d" else "raw", m.group(0)) for m in TOK.finditer(text)]
    sig = [i for i, (k, _) in enumerate(toks) if k not in ("com", "ws")]
    out = [t for _, t in toks]
    line0 = True; direct = False
    for i, (k, t) in enumerate(toks):       # preprocessor directives are left alone, except #define
        if k == "ws" and "\n" in t:
            prev = toks[i - 1][1] if i else ""
            if prev != "\\": line0 = True; direct = False
            continue
        if k in ("ws", "com"): continue
        if line0 and t == "#":
            j = sig.index(i) + 1
            direct = j < len(sig) and toks[sig[j]][1] != "define"
        line0 = False
        if t == "long" and toks[sig[sig.index(i) + 1]][1] == "double": out[i] = ""
        if k == "num" and not direct and FLT.match(t): out[i] = "double(" + t + ")"
    if stage >= 2:
        for a in range(1, len(sig) - 1):
            i = sig[a]; k, t = toks[i]
            if k != "num" or not INT.match(t): continue
            p, n = toks[sig[a - 1]][1], toks[sig[a + 1]][1]
            if p == "-" and a > 1: p = toks[sig[a - 2]][1]
            isq = p == "?" and n == ":"
            isc = p == ":" and n in (";", ")", ",", "]", "}")
            if isc:                          # the ':' must close a '?' of this statement, and the other branch not be a literal
                b = sig.index(i) - 1; depth = 0; ok = False
                while b > 0:
                    s = toks[sig[b]][1]
                    if s in ";{}": break
                    if s == "?": ok = True; break
                    b -= 1
                if not ok or (b + 1 < len(sig) and toks[sig[b + 1]][0] == "num" and toks[sig[b + 2]][1] == ":"): continue
            elif isq:
                if toks[sig[a + 2]][0] == "num" and toks[sig[a + 3]][1] in (";", ")", ",", "]", "}"): continue
            else: continue
            out[i] = "symns::Lit{" + t + "}"
    if opts:
        n = len(sig); T = lambda a: toks[sig[a]][1] if 0 <= a < n else ""
        for a in range(n):
            if T(a) in ("axis", "ord", "p") and T(a + 1) in (",", ")", "=") and not (T(a - 1) in ("&", ">")):
                b = a - 1
                if T(b) == "int" and T(b - 1) in ("(", ",", "const"): out[sig[b]] = "::symns::Sym"
                elif T(b) == "size_t" and T(b - 1) == "::" and T(b - 2) == "std" and T(b - 3) in ("(", ",", "const"):
                    out[sig[b]] = "::symns::Sym"; out[sig[b - 1]] = out[sig[b - 2]] = ""
            if T(a) == "std" and T(a + 1) == "::" and T(a + 2) == "string" and (toks[sig[a + 3]][0] == "id" or (T(a + 3) == "&" and toks[sig[a + 4]][0] == "id")):
                out[sig[a]] = "::vf"; out[sig[a + 2]] = "Str"
    return "".join(out)
def copy(src, dst, stage):
    for r, _, fs in os.walk(src):
        d = os.path.join(dst, os.path.relpath(r, src)); os.makedirs(d, exist_ok=True)
        for f in fs:
            if not f.endswith((".hpp", ".h", ".cpp", ".ipp", ".tpp", ".inl")): continue
            with open(os.path.join(r, f), errors="surrogateescape") as i: t = i.read()
            with open(os.path.join(d, f), "w", errors="surrogateescape") as o: o.write(rewrite(t, stage))
