from ..tpl import *
import itertools, random, warnings, math

BOUNDS = ("symbol-free expressions one and two levels deep over arbitrary rationals, decimals, pi, e, radicals, powers, logarithms of any base, trigonometric and inverse trigonometric functions and absolute values; "
          "the same after substituting symbols")
NOTE = ("Decimals are read as real numbers: pi, e and every operation of the evaluation are exact, so what is decided is that the same operations are applied to the same operands (rounding is C24).")

PER = {"quick": 25, "thorough": 400}

def decimal(h, r):
    X = sp()
    if isinstance(r, X.Rat): return True
    return isinstance(r, X.Float)

def check(h, e, ref=None, label="evalf", subs=None, zdiv=False):
    X = sp()
    zdiv = zdiv or any(e.has(c) for c in (X.sec, X.csc, X.cot, X.tan))
    if e.has(X.Infinity) or e.has(X.NaN): return
    def undefined(ex): return isinstance(ex, (ValueError, ZeroDivisionError, OverflowError)) and (h.sym is False or zdiv and isinstance(ex, ZeroDivisionError))
    ok, r = h.run((lambda: e.evalf()) if subs is None else (lambda: e.evalf(dict(subs))), label, allow_if=undefined)
    if not ok or not h.true(isinstance(r, X.Expr), label + " returns an expression", lambda: repr(r)): return
    if not h.true(decimal(h, r), label + " is a number", lambda: "%s for %s" % (h.show(r), h.show(e))): return
    h.equal(r, e if ref is None else ref, label)

def templates(tier):
    warnings.simplefilter("ignore")
    T = TL()
    X = sp()
    q = tier == "quick"
    x, y = S("x"), S("y")
    A = {
        "q": lambda h, t: R(h.q("a" + t)), "pi": lambda h, t: X.pi, "e": lambda h, t: X.e, "qpi": lambda h, t: h.q("a" + t, nz=True) * X.pi, "qe": lambda h, t: h.q("a" + t, nz=True) * X.e, "r2": lambda h, t: X.sqrt(2), "q3": lambda h, t: h.q("a" + t, nz=True) * X.sqrt(3),
        "fl": lambda h, t: X.Float(0.25), "nfl": lambda h, t: X.Float(-1.5), "sin": lambda h, t: X.sin(R(h.q("a" + t, nz=True))), "cos": lambda h, t: X.cos(R(h.q("a" + t, nz=True))), "tan": lambda h, t: X.tan(R(1)), "ln": lambda h, t: X.log(R(h.i("a" + t, 2, 9))), "log2": lambda h, t: X.log(R(h.i("a" + t, 3, 9)), 2),
        "epow": lambda h, t: X.e ** R(h.i("a" + t, -3, 3)), "pin": lambda h, t: X.pi ** R(h.i("a" + t, -3, 3)), "cbrt": lambda h, t: R(2) ** R(F(1, 3)), "atan": lambda h, t: X.atan(R(h.q("a" + t, pos=True))), "abs": lambda h, t: X.Abs(X.sqrt(2) - R(h.q("a" + t))), "pe": lambda h, t: X.pi ** X.e, "lnpi": lambda h, t: X.log(X.pi), "sec": lambda h, t: X.sec(R(h.i("a" + t, 1, 3))), "csc": lambda h, t: X.csc(R(h.i("a" + t, 1, 3))), "cot": lambda h, t: X.cot(R(h.i("a" + t, 1, 3))),
        "asin": lambda h, t: X.asin(R(F(1, 3))), "acos": lambda h, t: X.acos(R(F(-1, 3))), "sumpe": lambda h, t: X.pi + X.e * h.q("a" + t, nz=True),
    }
    for k in A:
        def f(h, k=k):
            e = A[k](h, "")
            h.seed_models()
            check(h, e)
            check(h, -e)
            check(h, e * 2 + 1)
            check(h, e ** 2)
            check(h, 1 / (e + 5) if k not in ("abs",) else e, zdiv=True)
        T.add("one:" + k, exact_float=True)(f)
    rng = random.Random(20)
    prs = list(itertools.combinations_with_replacement(A, 2))
    for a, b in (prs if not q else rng.sample(prs, 110)):
        def f(h, a=a, b=b):
            p, r = A[a](h, "0"), A[b](h, "1")
            h.seed_models()
            check(h, p + r, ("+", p, r), "sum")
            check(h, p - r, ("-", p, r), "difference")
            check(h, p * r, ("*", p, r), "product")
            check(h, p / (r + 7) if b != "abs" else p * r, label="quotient", zdiv=True)
        T.add("two:%s,%s" % (a, b), exact_float=True)(f)
    OUT = {"sin": lambda e: X.sin(e), "cos": lambda e: X.cos(e), "tan": lambda e: X.tan(e), "sec": lambda e: X.sec(e), "csc": lambda e: X.csc(e), "cot": lambda e: X.cot(e), "exp": lambda e: X.e ** e, "atan": lambda e: X.atan(e), "abs": lambda e: X.Abs(e), "2^": lambda e: R(2) ** e, "cube": lambda e: e ** 3, "inv": lambda e: 1 / e, "pi^": lambda e: X.pi ** e, "^-2": lambda e: e ** -2}
    POS = {"ln": lambda e: X.log(e), "log2": lambda e: X.log(e, 2), "log10": lambda e: X.log(e, 10), "sqrt": lambda e: X.sqrt(e), "logpi": lambda e: X.log(e, X.pi), "^pi": lambda e: e ** X.pi, "^5/3": lambda e: e ** R(F(5, 3)), "^.25": lambda e: e ** X.Float(0.25), "loghalf": lambda e: X.log(e, R(F(1, 2))), "^-1/2": lambda e: e ** R(F(-1, 2))}
    ins = ["qpi", "r2", "qe", "sin", "ln", "q3", "sumpe", "lnpi", "cbrt", "atan", "fl", "pin", "q"]
    pos = {"q": lambda h: R(h.q("a", pos=True)), "pi": lambda h: X.pi, "qpi": lambda h: h.q("a", pos=True) * X.pi, "r2": lambda h: X.sqrt(2), "pie": lambda h: X.pi + X.e, "fl": lambda h: X.Float(2.5), "q+r2": lambda h: R(h.q("a", pos=True)) + X.sqrt(2), "ln5": lambda h: X.log(R(5)), "e2": lambda h: X.e ** R(h.i("a", 1, 3)), "nq": lambda h: X.sqrt(3) * R(h.q("a", pos=True))}
    for o in OUT:
        for i in (ins if not q else rng.sample(ins, 6)):
            if i in ("sin", "atan") and o in ("sin", "cos", "tan", "sec", "csc", "cot"): continue
            def f(h, o=o, i=i):
                e = A[i](h, "")
                h.seed_models()
                ok, g = h.run(lambda: OUT[o](e), "build", allow=(Exception,))
                if ok and not g.has(X.NaN) and not g.has(X.Infinity): check(h, g, label="function")
                if ok and not g.has(X.NaN) and not g.has(X.Infinity): check(h, g * X.pi + X.sqrt(2), label="in a sum")
            T.add("fn:%s(%s)" % (o, i), exact_float=True)(f)
    for o in POS:
        for i in (pos if not q else rng.sample(list(pos), 6)):
            if i == "fl" and o != "sqrt": continue
            def f(h, o=o, i=i):
                e = pos[i](h)
                h.seed_models()
                g = POS[o](e)
                check(h, g, label="function")
                check(h, g * X.pi - X.e, label="in a sum")
                check(h, X.sin(g), label="inside sin")
            T.add("fn:%s(%s)" % (o, i), exact_float=True)(f)
    # evaluation with values for the symbols
    B = {"lin": lambda h: h.q("a", nz=True) * x + R(h.q("b")), "xy": lambda h: x * y - R(h.q("b")), "sin": lambda h: X.sin(x) * y, "sq": lambda h: (x + y) ** 2, "ln": lambda h: X.log(x) + y, "log2": lambda h: X.log(x, 2), "logy": lambda h: X.log(x + 1, y + 1), "exp": lambda h: X.e ** (x * y), "pow": lambda h: x ** y, "root": lambda h: X.sqrt(x) * X.pi, "rat": lambda h: (x + 1) / (y + 2), "x": lambda h: x, "sum": lambda h: x + y + X.pi, "abs": lambda h: X.Abs(x - y), "cos": lambda h: X.cos(x * X.pi) + X.tan(y), "const": lambda h: X.pi * h.q("b", nz=True)}
    V = {"q": lambda h: {"x": R(h.q("v", pos=True)), "y": R(h.q("w", pos=True))}, "pi": lambda h: {"x": X.pi, "y": R(h.i("w", 1, 3))}, "r2": lambda h: {"x": X.sqrt(2), "y": X.e}, "fl": lambda h: {"x": X.Float(0.25), "y": X.Float(1.5)}, "plain": lambda h: {"x": h.i("v", 1, 5), "y": 0.5}}
    for b in B:
        for v in V:
            if v in ("fl", "plain") and b in ("root", "pow", "log2", "ln", "logy", "sin", "cos", "rat", "exp"): continue
            def f(h, b=b, v=v):
                e, m = B[b](h), V[v](h)
                h.seed_models()
                mm = {k: (R(w) if not isinstance(w, (X.Expr, float)) else w if isinstance(w, X.Expr) else F(w)) for k, w in m.items()}
                check(h, e, ("subst", e, mm), "evalf with values", subs=m)
                ok, s = h.run(lambda: e.subs(dict(m)), "subs")
                if ok: check(h, s, ("subst", e, mm), "evalf after subs")
            T.add("subs:%s:%s" % (b, v), exact_float=True)(f)
    @T.add("partly numeric", exact_float=True)
    def _(h):
        a = h.q("a", nz=True)
        h.seed_models()
        for e in (a * x + X.pi, X.sin(x) * X.sqrt(2), X.log(x + X.pi), X.log(x, 2) * X.e, X.e ** x, x ** X.pi, X.Abs(x) * X.pi, X.atan(x) + X.e, x * y + R(a)):
            ok, r = h.run(lambda: e.evalf(), "evalf with free symbols")
            if ok: h.equal(r, e, "evalf with free symbols")
            ok, r = h.run(lambda: e.evalf({"x": R(2)}), "evalf with one value")
            if ok: h.equal(r, ("subst", e, {"x": R(2)}), "evalf with one value")
            ok, r = h.run(lambda: e.evalf({"x": y}), "evalf with a renamed symbol")
            if ok: h.equal(r, ("subst", e, {"x": y}), "evalf with a renamed symbol")
    @T.add("decimal constants")
    def _(h):
        a = h.choose(4, "which")
        h.seed_models()
        e, v = [(X.pi, math.pi), (X.e, math.e), (R(F(1, 3)), 1 / 3), (R(F(-7, 2)), -3.5)][a]
        ok, r = h.run(lambda: e.evalf(), "evalf")
        if ok: h.true(isinstance(r, X.Float) and type(r.value) is float and abs(r.value - v) <= 1e-15 * abs(v), "decimal of a constant", lambda: "%r" % (r,))
    return T
