from ..tpl import *
from .c13 import integrands, has_inf
from .c12 import setup, branchy, CYCLES
import random, warnings

BOUNDS = ("definite integrals of the listed integrand families (up to two symbolic rational coefficients) with symbolic rational limits, limits that are symbols, multiples of a symbol or pi, equal and reversed limits, infinite limits in some; "
          "the search is cut after a fixed number of cycles instead of two seconds of clock time")
NOTE = "The antiderivative is not taken from simpy where the limits are symbols: the result is differentiated with respect to its limits by the verifier's calculus."

PER = {"quick": 6, "thorough": 180}

def templates(tier):
    warnings.simplefilter("ignore")
    T = TL()
    X = sp()
    import importlib
    IN = importlib.import_module("simpy.integration")
    qk = tier == "quick"
    x, y, s, t = S("x"), S("y"), S("s"), S("t")
    a = lambda h: h.q("a", nz=True)
    b = lambda h: h.q("b", nz=True)
    sin, cos, tan, sec, log, sqrt, e = X.sin, X.cos, X.tan, X.sec, X.log, X.sqrt, X.e
    FAM = {
        "c": lambda h: R(h.q("a")), "ax": lambda h: a(h) * x, "poly": lambda h: a(h) * x ** 2 + R(h.q("b")) * x, "x^n": lambda h: x ** R(h.i("n", -3, 3)), "x^q": lambda h: x ** R(h.q("n")), "(x+a)^2": lambda h: (x + a(h)) ** 2, "1/(x+a)": lambda h: b(h) / (x + a(h)), "1/(x2+x)": lambda h: a(h) / (x * (x + 1)), "sin": lambda h: sin(a(h) * x), "cos2": lambda h: a(h) * cos(x) ** 2, "tan": lambda h: a(h) * tan(x), "sec2": lambda h: sec(a(h) * x) ** 2, "e": lambda h: e ** (a(h) * x), "x e": lambda h: x * e ** (a(h) * x), "xsin": lambda h: x * sin(x) * a(h), "ln": lambda h: log(a(h) * x), "x ln": lambda h: x * log(x), "1/(1+x2)": lambda h: a(h) / (1 + x ** 2), "x/(1+x2)": lambda h: x / (a(h) + x ** 2), "sqrt(1-x2)": lambda h: 1 / sqrt(1 - x ** 2), "x e x2": lambda h: x * e ** (a(h) * x ** 2), "lin e": lambda h: (a(h) * x + b(h)) * e ** x, "sin3": lambda h: sin(x) ** 3, "sincos": lambda h: sin(x) * cos(x) ** 2 * a(h), "2^x": lambda h: R(2) ** (a(h) * x), "abs": lambda h: a(h) * X.Abs(x),
    }
    YF = {"xy": lambda h: x * y * a(h), "x^2+y": lambda h: a(h) * x ** 2 + y, "sin xy": lambda h: sin(a(h) * x * y), "e^(x+y)": lambda h: e ** (x + a(h) * y), "y/x": lambda h: y / x, "1/(x+y)": lambda h: a(h) / (x + y), "y^2": lambda h: y ** 2 * a(h), "x^y": lambda h: x ** y, "y const": lambda h: sin(y) * a(h), "x cos y": lambda h: x * cos(y) + a(h)}
    FAM2 = dict(FAM)
    FAM2.update(YF)
    SKIP = object()
    def integ(h, f, bounds, label="integrate"):
        kp = setup(h, tier)
        if isinstance(bounds, tuple) and len(bounds) == 2 and not contains(f, x):
            h.true(True, "no variable to be found in a constant")
            return SKIP
        ok, r = h.run(lambda: IN.integrate(f, bounds), label)
        if not ok: return SKIP
        if r is None:
            h.true(True, "not integrated")
            return SKIP
        if branchy(kp.root):
            h.true(True, "out of scope: see C13-trigsub-branch")
            return SKIP
        return r
    def at(f, p): return ("subst", f, {"x": p})
    def limits(nm, mk, kind, A, B):
        """differentiate the result with respect to the symbols its limits are made of"""
        def f(h):
            g = mk(h)
            lo, hi = A(h), B(h)
            h.seed_models()
            r = integ(h, g, (x, lo, hi) if kind == 3 else (lo, hi))
            if r is SKIP: return
            h.true(not contains(r, x) or contains(lo, x) or contains(hi, x), "the variable of integration is gone", lambda: h.show(r))
            for v in (s, t):
                if contains(lo, v) or contains(hi, v):
                    h.equal(("-", ("*", at(g, hi), ("D", hi, v.name)), ("*", at(g, lo), ("D", lo, v.name))), ("D", r, v.name), "derivative by " + v.name, strict=False)
            h.equal(("num", 0) if False else R(0), ("subst", r, {"s": ("+", R(h.q("p", nz=True)), R(0)), "t": ("+", R(h.q("p", nz=True)), R(0))}) if kind != "x" and contains(lo, s) and contains(hi, t) and lo == s and hi == t else R(0), "equal limits", strict=False)
        T.add(nm)(f)
    ID = lambda v: (lambda h: v)
    for k, mk in FAM2.items():
        limits("s..t:" + k, mk, 3, ID(s), ID(t))
    for k in (["ax", "poly", "sin", "e", "x^n", "x e", "1/(x+a)", "ln", "cos2", "xy", "sin xy"] if qk else FAM2):
        mk = FAM2[k]
        limits("A..t:" + k, mk, 3, lambda h: R(h.q("A")), ID(t))
        limits("s..B:" + k, mk, 3, ID(s), lambda h: R(h.q("B")))
        limits("qs..-s:" + k, mk, 3, lambda h: R(h.q("A")) * s, lambda h: -s)
        limits("0..pi t:" + k, mk, 3, lambda h: R(0), lambda h: X.pi * t)
        limits("t^2..t+A:" + k, mk, 3, lambda h: t ** 2, lambda h: t + R(h.q("A")))
    for k in FAM:
        if k == "c": continue
        limits("implicit:" + k, FAM[k], 2, ID(s), ID(t))
    # against F(B) - F(A) with numbers for limits
    def numeric(nm, mk, A, B, kind=3):
        def f(h):
            g = mk(h)
            lo, hi = A(h), B(h)
            h.seed_models()
            r = integ(h, g, (x, lo, hi) if kind == 3 else (lo, hi))
            if r is SKIP: return
            F_ = integ(h, g, x, "indefinite")
            if F_ is SKIP: return
            h.equal(("-", at(F_, hi), at(F_, lo)), r, "F(B)-F(A)", strict=False)
        T.add(nm)(f)
    for k, mk in FAM2.items():
        numeric("A..B:" + k, mk, lambda h: R(h.q("A")), lambda h: R(h.q("B")))
    for k in (["poly", "sin", "cos2", "e", "x^n", "tan", "xy"] if qk else FAM2):
        mk = FAM2[k]
        numeric("A..A:" + k, mk, lambda h: R(h.q("A")), lambda h: R(h.q("A")))
        numeric("Api..Bpi:" + k, mk, lambda h: R(h.frac("A", 2, -3, 3)) * X.pi, lambda h: R(h.frac("B", 3, -2, 2)) * X.pi)
        numeric("y..A:" + k, mk, ID(y), lambda h: R(h.q("A")))
        if k == "e": numeric("fl:ax", FAM["ax"], lambda h: X.Float(0.5), lambda h: R(h.q("B")))
        if k in FAM:
            numeric("implicit A..B:" + k, mk, lambda h: R(h.q("A")), lambda h: R(h.q("B")), 2)
    # swapping and adjoining
    for k in (["c", "ax", "poly", "x^n", "sin", "e", "x e", "cos2", "1/(x+a)", "sincos"] if qk else FAM):
        def f(h, mk=FAM[k]):
            g = mk(h)
            A, B = R(h.q("A")), R(h.q("B"))
            h.seed_models()
            r1, r2 = integ(h, g, (x, A, B)), integ(h, g, (x, B, A))
            if r1 is SKIP or r2 is SKIP: return
            h.equal(("neg", r1), r2, "swap", strict=False)
        T.add("swap:" + k)(f)
        def f(h, mk=FAM[k]):
            g = mk(h)
            A, B, C = R(h.q("A")), y, R(h.q("C"))
            h.seed_models()
            r1, r2, r3 = integ(h, g, (x, A, B)), integ(h, g, (x, B, C)), integ(h, g, (x, A, C))
            if r1 is SKIP or r2 is SKIP or r3 is SKIP: return
            h.equal(("+", r1, r2), r3, "adjoin", strict=False)
        T.add("adjoin:" + k)(f)
    # python numbers as limits, infinite limits
    def pynum(h):
        g = a(h) * x ** 2 + x
        r = integ(h, g, (x, 0, 3))
        r2 = integ(h, g, (x, R(0), R(3)))
        if r is not SKIP and r2 is not SKIP: h.equal(r2, r, "python numbers")
    T.add("python numbers")(pynum)
    def tail(h):
        k = h.q("a", pos=True)
        r = integ(h, e ** (-(k * x)), (x, R(h.q("A")), X.inf))
        if r is SKIP: return
        h.equal(("/", ("^", ("e",), ("neg", ("*", k * 1 if not isinstance(k, int) else k, R(h.q("A"))))), R(k)), r, "tail of e^-kx", strict=False)
    T.add("tail e")(tail)
    def tail2(h):
        n = h.frac("n", 2, 1, 9)
        r = integ(h, x ** R(-n - 1), (x, R(h.q("A", pos=True)), X.inf))
        if r is SKIP: return
        h.equal(("/", ("^", R(h.q("A", pos=True)), R(-n)), R(n)), r, "tail of x^-n", strict=False)
    T.add("tail x^-n")(tail2)
    # the variable must be given when it is not determined
    for nm, mk in (("two symbols", lambda h: x * y * a(h)), ("no symbol", lambda h: R(h.q("a"))), ("three", lambda h: x + y * s)):
        for bn, bd in (("none", lambda h: None), ("pair", lambda h: (R(h.q("A")), R(h.q("B"))))):
            def f(h, mk=mk, bd=bd):
                g = mk(h)
                setup(h, tier)
                try:
                    r = IN.integrate(g, bd(h))
                except ValueError:
                    h.true(True, "refused")
                    return
                h.fail("an integral without a determined variable is answered", lambda: h.show(r))
            T.add("ambiguous:%s:%s" % (nm, bn))(f)
    def one(h):
        g = a(h) * y ** 2 + y
        setup(h, tier)
        ok, r = h.run(lambda: IN.integrate(g), "integrate")
        if ok and r is not None: h.equal(g, ("D", r, "y"), "the only symbol is the variable")
    T.add("only symbol")(one)
    return T

def contains(e, v):
    return e == v or any(contains(c, v) for c in e.children())
