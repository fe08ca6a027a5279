from ..tpl import *
import itertools, random, warnings

BOUNDS = ("the listed expression shapes (every node class, arbitrary rational coefficients and exponents) with one or two symbols replaced by the listed replacements "
          "(arbitrary rationals, decimals, constants, other symbols, swapped symbols, sums, products, functions); replacement of sub-expressions and of function classes in the same shapes")

PER = {"quick": 25, "thorough": 400}

def names(e, out=None):
    out = set() if out is None else out
    if type(e).__name__ == "Symbol": out.add(e.name)
    for c in e.children(): names(c, out)
    return out

def templates(tier):
    warnings.simplefilter("ignore")
    T = TL()
    X = sp()
    q = tier == "quick"
    x, y, z, u = S("x"), S("y"), S("z"), S("u")
    E = {
        "x": lambda h: x, "num": lambda h: R(h.q("c")), "pi": lambda h: X.pi * R(h.q("c", nz=True)), "lin": lambda h: h.q("a", nz=True) * x + R(h.q("b")), "axy": lambda h: h.q("a", nz=True) * x * y, "xn": lambda h: x ** R(h.q("n")), "axn": lambda h: h.q("a", nz=True) * x ** R(h.i("n", -3, 3)),
        "x+y": lambda h: x + h.q("a") * y, "x-y": lambda h: x - y, "x/y": lambda h: h.q("a") * x / y, "xyn": lambda h: x ** 2 * y ** R(h.i("n", -2, 2)), "linn": lambda h: (x + y + R(h.q("b"))) ** R(h.i("n", -2, 2)), "poly": lambda h: x ** 3 + h.q("a") * x ** 2 - x + R(h.q("b")),
        "x^y": lambda h: x ** y, "2^x": lambda h: R(2) ** (h.q("a", nz=True) * x), "e^": lambda h: X.e ** (h.q("a", nz=True) * x + y), "ln": lambda h: X.log(x), "ln lin": lambda h: X.log(h.q("a", pos=True) * x + y), "log2": lambda h: X.log(x, 2), "log10": lambda h: X.log(x + y, 10), "log y": lambda h: X.log(x, y), "log y2": lambda h: X.log(R(h.q("a", pos=True)) * x, y + 1),
        "abs": lambda h: X.Abs(x + R(h.q("b"))), "sqrt": lambda h: X.sqrt(x), "sqrt2": lambda h: X.sqrt(x * y + 1), "rat": lambda h: (x + 1) / (x * y - R(h.q("b"))), "nest": lambda h: X.sin(X.cos(x) + y) * x, "fl": lambda h: X.Float(0.5) * x + y, "e^x x": lambda h: x * X.e ** (-x), "ss": lambda h: X.sin(x) ** 2 + X.cos(x) ** R(h.i("n", -2, 2)),
        "sum4": lambda h: x + y + z + x * y * z, "prodsum": lambda h: (x + y) * (x - z) * R(h.q("a")), "asin2": lambda h: X.asin(x * y), "coef": lambda h: X.sqrt(2) * x + X.e * y,
    }
    for fn in ("sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan"):
        E[fn] = lambda h, fn=fn: getattr(X, fn)(x)
        if fn[0] != "a": E[fn + "l"] = lambda h, fn=fn: getattr(X, fn)(h.q("a", nz=True) * x + y)
    V = {
        "q": lambda h: {"x": R(h.q("v"))}, "y": lambda h: {"x": y}, "swap": lambda h: {"x": y, "y": x}, "shift": lambda h: {"x": x + R(h.q("v"))}, "scale": lambda h: {"x": h.q("v", nz=True) * x}, "neg": lambda h: {"x": -x}, "negz": lambda h: {"x": -z, "y": z}, "sum": lambda h: {"x": y + z},
        "two": lambda h: {"x": R(h.q("v")), "y": R(h.q("w"))}, "sq": lambda h: {"x": z ** 2}, "pow": lambda h: {"x": z ** R(h.q("v"))}, "sin": lambda h: {"x": X.sin(z)}, "asin": lambda h: {"x": X.asin(z)}, "tan": lambda h: {"x": X.tan(u)}, "ln": lambda h: {"x": X.log(z)}, "e^": lambda h: {"x": X.e ** z}, "pi": lambda h: {"x": X.pi}, "e": lambda h: {"x": X.e},
        "pi/": lambda h: {"x": X.pi * h.frac("v", 6, -12, 12), "y": R(0)}, "chain": lambda h: {"x": y * z, "y": R(h.q("v"))}, "chain2": lambda h: {"y": x + 1, "x": z}, "absent": lambda h: {"w": R(h.q("v"))}, "rot": lambda h: {"x": y, "y": z, "z": x}, "py": lambda h: {"y": R(h.q("v"))}, "fl": lambda h: {"x": X.Float(0.25)}, "plain": lambda h: {"x": h.i("v", -4, 4)}, "inv": lambda h: {"x": 1 / z}, "sqrt": lambda h: {"x": X.sqrt(z)}, "one": lambda h: {"x": R(1), "y": R(-1)}, "zero": lambda h: {"x": R(0)}, "empty": lambda h: {},
    }
    rng = random.Random(11)
    trig = ("sin", "cos", "tan", "sec", "csc", "cot")
    known_bad = set()
    for k in E:
        vs = list(V) if not q else rng.sample(list(V), 9)
        must = {"log2": ["y", "q", "scale"], "log10": ["two", "swap"], "log y": ["swap", "py"], "x^y": ["swap", "chain"], "x/y": ["swap"], "x-y": ["swap", "rot"], "sum4": ["rot", "chain2"]}
        for v in dict.fromkeys(vs + must.get(k, [])):
            if (k, v) in (("asin", "sin"), ("atan", "tan")): continue   # known finding C09-inverse-of-trig
            if v == "fl" and k in trig + ("asin", "acos", "atan", "2^x", "e^", "ln", "log2", "e^x x", "ss", "nest", "sinl", "cosl", "tanl", "secl", "cscl", "cotl", "sqrt", "sqrt2"): continue   # rounded by libm
            def f(h, k=k, v=v):
                e, m = E[k](h), V[v](h)
                h.seed_models()
                ok, r = h.run(lambda: e.subs(dict(m)), "subs")
                if not ok or not h.true(isinstance(r, X.Expr), "subs returns an expression", lambda: repr(r)): return
                mm = {n: (R(w) if not isinstance(w, X.Expr) else w) for n, w in m.items()}
                h.equal(r, ("subst", e, mm), "subs %s" % v, strict=not (k[:3] in trig or k in ("tan", "asin")))
                gone = set(m) - set().union(set(), *[names(w) for w in mm.values()])
                h.true(not (names(r) & gone), "subs leaves a replaced symbol", lambda: "%s in %s" % (gone, h.show(r)))
                if v in ("absent", "empty"): h.true(r == e, "nothing to substitute")
            T.add("subs:%s:%s" % (k, v))(f)
    # replacing a sub-expression
    from simpy import regex as RX
    SUB = {
        "x": lambda h: x, "sin x": lambda h: X.sin(x), "x+b": lambda h: x + R(h.q("s", nz=True)), "ax": lambda h: h.q("s", nz=True) * x, "x^n": lambda h: x ** R(h.i("s", 2, 4)), "log": lambda h: X.log(x), "e^x": lambda h: X.e ** x, "num": lambda h: R(h.i("s", 2, 5)), "sqrt": lambda h: X.sqrt(x), "cos": lambda h: X.cos(h.q("s", pos=True) * x), "abs": lambda h: X.Abs(x),
    }
    CTX = {
        "+": lambda h, o: o + y + R(h.q("a")), "*": lambda h, o: h.q("a", nz=True) * o * (y + 1), "^": lambda h, o: (o + y) ** R(h.i("n", -2, 3)), "exp": lambda h, o: X.e ** (h.q("a", nz=True) * o), "base": lambda h, o: y ** o, "sin": lambda h, o: X.sin(o + y) + o, "tan": lambda h, o: X.tan(o * y), "log": lambda h, o: X.log(o + y) * o, "log2": lambda h, o: X.log(o + y, 2) + o, "logb": lambda h, o: X.log(y, o), "atan": lambda h, o: X.atan(o), "abs": lambda h, o: X.Abs(o + y), "/": lambda h, o: (o + 1) / (o - R(h.q("a"))), "twice": lambda h, o: o * X.cos(o) + o ** 2, "deep": lambda h, o: X.sqrt(1 + X.sin(X.log(o + y)) ** 2),
    }
    NEW = {"q": lambda h: R(h.q("v")), "z": lambda h: z, "x+1": lambda h: x + 1, "z^2": lambda h: z ** 2}
    for s, c in (itertools.product(SUB, CTX) if not q else rng.sample(list(itertools.product(SUB, CTX)), 70)):
        def f(h, s=s, c=c):
            old = SUB[s](h)
            e = CTX[c](h, old)
            nw = NEW[("q", "z", "x+1", "z^2")[h.choose(4, "new")]](h)
            h.seed_models()
            ok, r = h.run(lambda: RX.replace(e, old, u), "replace")
            if not ok: return
            h.equal(("subst", r, {"u": old}), e, "replace, then substitute back")
            ok, r2 = h.run(lambda: RX.replace(e, old, nw), "replace")
            if ok: h.equal(r2, ("subst", r, {"u": nw}), "replace by another expression")
            ok, r3 = h.run(lambda: RX.replace_factory_list([lambda t: t == old], [lambda t: nw])(e), "replace_factory_list")
            if ok: h.equal(r3, ("subst", r, {"u": nw}), "replace_factory_list")
            ok, r4 = h.run(lambda: RX.kinder_replace(e, lambda t: nw if t == old else None), "kinder_replace")
            if ok: h.equal(r4, ("subst", r, {"u": nw}), "kinder_replace")
        T.add("replace:%s in %s" % (s, c))(f)
    # replacing a class of functions by an equal formula
    def _():
        return {"sin": (X.sin, lambda t: X.tan(t) * X.cos(t)), "cos": (X.cos, lambda t: 1 / X.sec(t)), "tan": (X.tan, lambda t: X.sin(t) / X.cos(t)), "sec": (X.sec, lambda t: 1 / X.cos(t)), "csc": (X.csc, lambda t: 1 / X.sin(t)), "cot": (X.cot, lambda t: X.cos(t) / X.sin(t))}
    CL = _()
    BODY = {
        "one": lambda h, f, g: f(h.q("a", nz=True) * x + y), "mix": lambda h, f, g: f(x) * g(y) ** R(h.i("n", -2, 2)) + h.q("a") * f(y), "in": lambda h, f, g: f(g(x) + R(h.q("a"))), "log": lambda h, f, g: X.log(f(x) + 2, 2) + g(x), "exp": lambda h, f, g: X.e ** (f(x) * R(h.q("a"))) * g(x), "abs": lambda h, f, g: X.Abs(f(x)) * X.sqrt(g(y) ** 2 + 1), "none": lambda h, f, g: x ** 2 + R(h.q("a")), "rat": lambda h, f, g: (1 + f(x)) / (2 + g(x)), "atan": lambda h, f, g: X.atan(f(x) + g(x)),
    }
    prs = list(itertools.permutations(CL, 2))
    for b in BODY:
        for p, r_ in (prs if not q else rng.sample(prs, 5)):
            def f(h, b=b, p=p, r_=r_):
                e = BODY[b](h, CL[p][0], CL[r_][0])
                h.seed_models()
                ok, r = h.run(lambda: RX.replace_class(e, [CL[p][0]], [CL[p][1]]), "replace_class")
                if ok: h.equal(r, e, "replace_class")
                if {p, r_} not in ({"sin", "tan"}, {"cos", "sec"}):
                    ok, r = h.run(lambda: RX.replace_class(e, [CL[p][0], CL[r_][0]], [CL[p][1], CL[r_][1]]), "replace_class two")
                    if ok: h.equal(r, e, "replace_class two")
            T.add("class:%s:%s,%s" % (b, p, r_))(f)
    return T
