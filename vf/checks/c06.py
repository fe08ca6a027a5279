from ..tpl import *
import itertools, random, warnings

BOUNDS = ("sums of 2-4 terms of the listed kinds (symbols, monomials with arbitrary rational coefficients, functions, constants) to integer powers up to 4 (6 in thorough), negative and fractional powers, "
          "products of 2-4 such factors, quotients, nested powers, and the same inside functions")
NOTE = ("'Nothing left to multiply out' is decided by a walker of this check: no product with a sum factor and no positive whole power of a sum in a numerator, outside function arguments, exponents and denominators.")

PER = {"quick": 30, "thorough": 400}

def ispos(n):
    X = sp()
    return isinstance(n, X.Rat) and bool(n.value > 1) and HH[0].is_int(n.value)

HH = [None]
def left(e):
    """is there something to multiply out in a numerator?"""
    X = sp()
    if isinstance(e, X.Sum): return any(left(t) for t in e.terms)
    if isinstance(e, X.Prod):
        if any(isinstance(t, X.Sum) for t in e.terms): return True
        return any(left(t) for t in e.terms)
    if isinstance(e, X.Power): return isinstance(e.base, X.Sum) and ispos(e.exponent)
    return False

def check(h, e, ref=None, label="expand"):
    X = sp()
    HH[0] = h
    ok, can = h.run(lambda: e.expandable(), label + "able")
    if not ok or not h.true(isinstance(can, bool), label + "able is a bool", lambda: repr(can)): return
    if not can:
        h.true(not left(e), label + "able misses something to multiply out", lambda: h.show(e))
        return
    ok, r = h.run(lambda: e.expand(), label)
    if not ok or not h.true(isinstance(r, X.Expr), label + " returns an expression", lambda: repr(r)): return
    h.equal(r, e if ref is None else ref, label)
    h.true(not left(r), label + " leaves something to multiply out", lambda: "%s -> %s" % (h.show(e), h.show(r)))

def templates(tier):
    warnings.simplefilter("ignore")
    T = TL()
    X = sp()
    x, y, z = S("x"), S("y"), S("z")
    B = {
        "x": lambda h, t: x, "y": lambda h, t: y, "z": lambda h, t: z, "ax": lambda h, t: h.q("a" + t, nz=True) * x, "by": lambda h, t: h.q("b" + t, nz=True) * y, "c": lambda h, t: R(h.q("c" + t, nz=True)),
        "xn": lambda h, t: x ** R(h.i("n" + t, -3, 3)), "sin": lambda h, t: X.sin(x), "ex": lambda h, t: X.e ** (h.q("a" + t, nz=True) * x), "pi": lambda h, t: X.pi, "sqrtx": lambda h, t: X.sqrt(x),
        "inv": lambda h, t: h.q("a" + t, nz=True) / x, "lny": lambda h, t: X.log(y), "xy": lambda h, t: h.q("a" + t, nz=True) * x * y, "r2": lambda h, t: X.sqrt(2), "x2": lambda h, t: x ** 2, "api": lambda h, t: h.q("a" + t, nz=True) * X.pi,
        "asin": lambda h, t: h.q("a" + t, nz=True) * X.sin(y), "e": lambda h, t: X.e, "yinv": lambda h, t: 1 / (y + 1), "half": lambda h, t: X.Float(0.5) * x, "one": lambda h, t: R(1), "mx": lambda h, t: -x,
    }
    rng = random.Random(6)
    names = list(B)
    def mk(h, ks, tag=""):
        ts = [B[k](h, tag + str(i)) for i, k in enumerate(ks)]
        s = ts[0]
        for t in ts[1:]: s = s + t
        return s, ("+",) + tuple(ts)
    twos = list(itertools.combinations(names, 2))
    q = tier == "quick"
    # powers of sums
    pw = rng.sample(twos, 30 if q else 140)
    for ks in pw:
        def f(h, ks=ks):
            s, _ = mk(h, ks)
            h.seed_models()
            for n in ((2, 3) if q else (2, 3, 4, 5)):
                check(h, s ** n, ("^", s, n), "square" if n == 2 else "power %d" % n)
        T.add("pow2:%s" % "+".join(ks))(f)
    pw = rng.sample(list(itertools.combinations(names, 3)), 25 if q else 120)
    for ks in pw:
        def f(h, ks=ks):
            s, _ = mk(h, ks)
            h.seed_models()
            for n in ((2,) if q else (2, 3)):
                check(h, s ** n, ("^", s, n), "power %d" % n)
        T.add("pow3:%s" % "+".join(ks))(f)
    for ks in (("x", "by", "c"), ("ax", "c"), ("sin", "ex"), ("ax", "by", "z", "c"), ("sqrtx", "c"), ("xn", "c"), ("x", "y"), ("pi", "r2")):
        for n in ((4,) if q else (4, 5, 6)):
            if q and len(ks) > 3: n = 3
            def f(h, ks=ks, n=n):
                s, _ = mk(h, ks)
                h.seed_models()
                check(h, s ** n, ("^", s, n), "power %d" % n)
            if not any(t["name"] == "high:%s^%d" % ("+".join(ks), n) for t in T): T.add("high:%s^%d" % ("+".join(ks), n))(f)
    # arbitrary integer and fractional exponents
    for ks in (("ax", "c"), ("x", "y"), ("sin", "c"), ("x", "by", "c")):
        def f(h, ks=ks):
            n = h.i("n", -4, 4)
            s, _ = mk(h, ks)
            h.seed_models()
            check(h, s ** R(n), ("^", s, R(n)), "integer power")
        T.add("intpow:%s" % "+".join(ks), paths=60)(f)
        for d in (2, 3):
            def f(h, ks=ks, d=d):
                n = h.frac("n", d, -7, 7)
                s, _ = mk(h, ks)
                h.seed_models()
                check(h, s ** R(n), ("^", s, R(n)), "fractional power")
                check(h, x * s ** R(n), ("*", x, ("^", s, R(n))), "fractional power times x")
            T.add("fracpow/%d:%s" % (d, "+".join(ks)), paths=60)(f)
    # products
    for ka, kb in rng.sample(list(itertools.combinations_with_replacement(twos, 2)), 45 if q else 260):
        def f(h, ka=ka, kb=kb):
            (p, _), (r, _) = mk(h, ka, "p"), mk(h, kb, "q")
            h.seed_models()
            check(h, p * r, ("*", p, r), "product")
        T.add("prod:%s|%s" % ("+".join(ka), "+".join(kb)))(f)
    for k in names:
        def f(h, k=k):
            m = B[k](h, "m")
            s, _ = mk(h, ("ax", "by", "c"))
            h.seed_models()
            check(h, m * s, ("*", m, s), "monomial times sum")
            check(h, m * (x + y) ** 2, ("*", m, ("^", x + y, 2)), "monomial times square")
            check(h, s / (m + z), ("/", s, ("+", m, z)), "quotient")
            check(h, (x + y) ** 2 / (m * (x - z)), ("/", ("^", x + y, 2), ("*", m, x - z)), "square over product")
        T.add("mono:%s" % k)(f)
    for n in (3, 4):
        def f(h, n=n):
            c = [h.q("c%d" % i, nz=True) for i in range(n)]
            h.seed_models()
            fs = [x + R(k) for k in c]
            e = fs[0]
            for g in fs[1:]: e = e * g
            check(h, e, ("*",) + tuple(fs), "%d factors" % n)
            check(h, e / (x + y), ("/", ("*",) + tuple(fs), x + y), "%d factors over" % n)
        T.add("factors:%d" % n)(f)
    @T.add("nested")
    def _(h):
        a, b = h.q("a", nz=True), h.q("b", nz=True)
        h.seed_models()
        i = x + R(a)
        check(h, (i ** 2 + y) ** 2, ("^", ("+", ("^", i, 2), y), 2), "nested power")
        check(h, (x * i + R(b)) * (y * i + 1), ("*", ("+", ("*", x, i), b), ("+", ("*", y, i), 1)), "nested product")
        check(h, x * (y * (i) + b) ** 2, label="nested monomial")
        check(h, ((x + 1) * (x + y) + R(a)) ** 2, label="nested square")
    @T.add("sums of expandables")
    def _(h):
        a, b = h.q("a", nz=True), h.q("b", nz=True)
        h.seed_models()
        check(h, (x + R(a)) ** 2 - (x + R(b)) ** 2, ("-", ("^", x + R(a), 2), ("^", x + R(b), 2)), "difference of squares")
        check(h, x * (x + R(a)) + y * (x - R(b)), label="sum of products")
        check(h, (x + y) ** 2 + X.sin(x) + 3, label="sum with function")
        check(h, (x + y) ** 2 - x ** 2 - 2 * x * y - y ** 2, ("sym0",) if False else R(0), label="identity")
    @T.add("inside functions")
    def _(h):
        a = h.q("a", nz=True)
        h.seed_models()
        i = x * (x + R(a))
        for fn in (X.sin, X.cos, X.atan, X.log, X.Abs):
            check(h, fn(i), label="inside " + fn.__name__)
            check(h, y * fn(i) * (y + 1), label="times " + fn.__name__)
        check(h, X.e ** i, label="inside exponent")
        check(h, X.sqrt(i), label="inside sqrt")
        check(h, X.e ** i * (x + y), label="times exponential")
    for b in (2, 10, F(1, 2)):
        def f(h, b=b):
            a = h.q("a", pos=True)
            h.seed_models()
            inner = x * (x + R(a))
            check(h, X.log(inner, R(b)), ("log", inner, R(b)), "log base")
            check(h, (X.log(inner, R(b)) + y) * x, ("*", ("+", ("log", inner, R(b)), y), x), "log base in a sum")
        T.add("log base %s" % b)(f)
    @T.add("nothing to expand")
    def _(h):
        a, b = h.q("a", nz=True), h.q("b", nz=True)
        n = h.i("n", -3, 3)
        h.seed_models()
        for e in (a * x, x ** R(n), a * x * y ** R(n), a * x + b * y, X.sin(x), R(a), X.pi, x, a * X.e ** x):
            HH[0] = h
            ok, can = h.run(lambda: e.expandable(), "expandable")
            if ok: h.true(can is False or not isinstance(e, (X.Symbol, X.Num)), "expandable on an atom", lambda: h.show(e))
            check(h, e)
    @T.add("cancelling")
    def _(h):
        a = h.q("a", nz=True)
        h.seed_models()
        i, j = x + R(a), x - R(a)
        check(h, i * j, ("-", ("^", x, 2), R(a) * R(a)), "conjugates")
        check(h, (X.sqrt(x) + R(a)) * (X.sqrt(x) - R(a)), ("-", x, a * a), "root conjugates")
        check(h, (x + y) * (x - y) * (x ** 2 + y ** 2), ("-", ("^", x, 4), ("^", y, 4)), "three conjugates")
        check(h, (X.e ** x + X.e ** (-x)) ** 2, ("+", ("^", ("e",), 2 * x), 2, ("^", ("e",), -2 * x)), "exponentials")
        check(h, x * (1 / x + y), ("+", 1, ("*", x, y)), "reciprocal")
        check(h, (x + 1 / x) ** 3, ("^", ("+", x, ("/", 1, x)), 3), "x + 1/x")
    @T.add("decimals")
    def _(h):
        a = h.frac("a", 4, -9, 9)
        h.seed_models()
        fl = X.Float(0.25)
        check(h, (x + fl) ** 2, ("^", ("+", x, F(1, 4)), 2), "decimal square")
        check(h, (x + fl) * (y + R(a)), ("*", ("+", x, F(1, 4)), ("+", y, a)), "decimal product")
        check(h, fl * (x + R(a)), ("*", F(1, 4), ("+", x, a)), "decimal times sum")
    @T.add("symbolic exponents")
    def _(h):
        a = h.q("a", nz=True)
        h.seed_models()
        check(h, (x + R(a)) ** y, label="symbolic exponent")
        check(h, x ** y * (x ** z + R(a)), ("*", ("^", x, y), ("+", ("^", x, z), a)), "powers times sum")
        check(h, (x + y) ** 2 * (x + y) ** z, label="mixed powers")
        check(h, R(2) ** (x * (y + R(a))), label="power of product exponent")
    return T
