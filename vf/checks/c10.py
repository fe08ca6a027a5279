from ..tpl import *
import itertools, random, warnings

BOUNDS = ("derivatives of the listed shapes (polynomials, quotients, powers, exponentials, logarithms of listed and arbitrary rational bases, trigonometric and inverse trigonometric functions, absolute values, "
          "and their products, quotients, sums and compositions two levels deep) with arbitrary rational coefficients and arbitrary rational or listed integer exponents")

PER = {"quick": 30, "thorough": 500}

def check(h, e, v="x", label="diff", ref=None):
    X = sp()
    V = S(v)
    want = ("D", e if ref is None else ref, v)
    def allow(ex): return isinstance(ex, NotImplementedError)
    ok, r = h.run(lambda: X.diff(e, V), label, allow_if=allow)
    if ok and h.true(isinstance(r, X.Expr), label + " returns an expression", lambda: repr(r)):
        h.equal(r, want, label + " d/d" + v)
    ok, r2 = h.run(lambda: e.diff(V), label, allow_if=allow)
    if ok and h.true(isinstance(r2, X.Expr), label + " method returns an expression", lambda: repr(r2)):
        if r2 is not r: h.equal(r2, want, label + " method d/d" + v)

def templates(tier):
    warnings.simplefilter("ignore")
    T = TL()
    X = sp()
    x, y = S("x"), S("y")
    B = {
        "c": lambda h, t: R(h.q("c" + t)), "x": lambda h, t: x, "ax": lambda h, t: h.q("a" + t, nz=True) * x, "xn": lambda h, t: x ** R(h.q("n" + t)), "axn": lambda h, t: h.q("a" + t, nz=True) * x ** R(h.i("n" + t, -3, 3)),
        "lin": lambda h, t: h.q("a" + t, nz=True) * x + R(h.q("b" + t, nz=True)), "linn": lambda h, t: (x + R(h.q("b" + t, nz=True))) ** R(h.i("n" + t, -3, 3)), "linq": lambda h, t: (x + y) ** R(h.q("n" + t)),
        "axy": lambda h, t: h.q("a" + t, nz=True) * x * y, "y": lambda h, t: y, "xy": lambda h, t: x ** y, "yx": lambda h, t: y ** (h.q("a" + t, nz=True) * x), "ax2": lambda h, t: R(h.q("b" + t, pos=True)) ** x,
        "ex": lambda h, t: X.e ** (h.q("a" + t, nz=True) * x), "ex2": lambda h, t: X.e ** (h.q("a" + t, nz=True) * x ** 2 + x), "ln": lambda h, t: X.log(x), "lnl": lambda h, t: X.log(h.q("a" + t, pos=True) * x + R(h.q("b" + t, pos=True))),
        "lny": lambda h, t: X.log(x * y + 1), "sqrt": lambda h, t: X.sqrt(x + R(h.q("b" + t))), "inv": lambda h, t: h.q("a" + t, nz=True) / x,
        "pix": lambda h, t: X.pi * x, "flx": lambda h, t: X.Float(0.5) * x, "inf": None,
    }
    del B["inf"]
    for fn in ("sin", "cos", "tan", "sec", "csc", "cot"):
        B[fn] = lambda h, t, fn=fn: getattr(X, fn)(h.q("a" + t, nz=True) * x + y)
        B[fn + "x"] = lambda h, t, fn=fn: getattr(X, fn)(x)
        B[fn + "2"] = lambda h, t, fn=fn: getattr(X, fn)(x) ** R(h.i("n" + t, -3, 3))
    for fn in ("asin", "acos", "atan"):
        B[fn] = lambda h, t, fn=fn: getattr(X, fn)(h.q("a" + t, nz=True) * x)
        B[fn + "l"] = lambda h, t, fn=fn: getattr(X, fn)(x ** 2 + y)
    for k in B:
        def f(h, k=k):
            e = B[k](h, "")
            h.seed_models()
            check(h, e)
            check(h, e, "y")
        T.add("one:" + k)(f)
    for b in (2, 3, 10, F(1, 2)):
        def f(h, b=b):
            a, c = h.q("a", pos=True), h.q("b", pos=True)
            h.seed_models()
            e = X.log(a * x + R(c), R(b))
            check(h, e, ref=("log", ("+", ("*", a, x), c), R(b)))
            check(h, x * X.log(x, R(b)), ref=("*", x, ("log", x, R(b))))
        T.add("log base %s" % b)(f)
    @T.add("log base y")
    def _(h):
        a = h.q("a", pos=True)
        h.seed_models()
        check(h, X.log(a * x, y))
        check(h, X.log(a * x, y), "y")
        check(h, X.log(R(a) + 1, x))
        check(h, X.log(x + R(a), x))
    @T.add("abs")
    def _(h):
        a, b = h.q("a", nz=True), h.q("b", nz=True)
        h.seed_models()
        check(h, X.Abs(x))
        check(h, X.Abs(a * x))
        check(h, X.log(X.Abs(x)))
    @T.add("abs2")
    def _(h):
        a = h.q("a", nz=True)
        n = h.i("n", -3, 3)
        h.seed_models()
        check(h, X.Abs(x) ** R(n))
        check(h, a * x * X.Abs(x))
    @T.add("abs3")
    def _(h):
        h.seed_models()
        check(h, X.log(X.Abs(X.sin(x))))
        check(h, X.Abs(X.sin(x)))
        check(h, X.Abs(x * y), "y")
    rng = random.Random(10)
    names = [k for k in B if k not in ("c", "y")]
    prs = list(itertools.combinations_with_replacement(names, 2))
    heavy = {"sec2", "csc2", "cot2", "tan2", "xn", "linq", "linn"}
    pick = rng.sample(prs, 90) if tier == "quick" else prs
    for a, b in pick:
        if tier == "quick" and a in heavy and b in heavy: continue
        def f(h, a=a, b=b):
            p, q = B[a](h, "0"), B[b](h, "1")
            h.seed_models()
            check(h, p * q, label="product", ref=("*", p, q))
            check(h, p + q, label="sum", ref=("+", p, q))
        T.add("two:%s,%s" % (a, b))(f)
    pick = rng.sample(prs, 30) if tier == "quick" else rng.sample(prs, 250)
    for a, b in pick:
        def f(h, a=a, b=b):
            p, q = B[a](h, "0"), B[b](h, "1")
            h.seed_models()
            check(h, p / q, label="quotient", ref=("/", p, q))
        T.add("quot:%s,%s" % (a, b))(f)
    OUT = {"sin": lambda e: X.sin(e), "cos": lambda e: X.cos(e), "tan": lambda e: X.tan(e), "sec": lambda e: X.sec(e), "csc": lambda e: X.csc(e), "cot": lambda e: X.cot(e), "exp": lambda e: X.e ** e, "log": lambda e: X.log(e),
           "atan": lambda e: X.atan(e), "asin": lambda e: X.asin(e), "acos": lambda e: X.acos(e), "sqrt": lambda e: X.sqrt(e), "inv": lambda e: 1 / e, "cube": lambda e: e ** 3, "2^": lambda e: R(2) ** e, "y^": lambda e: y ** e}
    ins = ["xn", "lin", "axy", "ex", "ln", "sinx", "cosx", "tanx", "sqrt", "inv", "linn", "axn", "atan", "secx"]
    for o in OUT:
        for i in (ins if tier != "quick" else rng.sample(ins, 6)):
            def f(h, o=o, i=i):
                e = B[i](h, "")
                h.seed_models()
                ok, g = h.run(lambda: OUT[o](e), "build", allow=(Exception,))
                if ok: check(h, g, label="composition")
            T.add("comp:%s(%s)" % (o, i))(f)
    for i in ("xn", "ex", "sinx", "ln", "lin"):
        def f(h, i=i):
            e = B[i](h, "")
            n = h.q("m")
            h.seed_models()
            check(h, e ** R(n), label="general power")
        T.add("gpow:%s" % i)(f)
    @T.add("shared factors")
    def _(h):
        a = h.q("a", nz=True)
        h.seed_models()
        u = x + R(a)
        s = X.sin(u)
        check(h, u * s * X.cos(u), ref=("*", u, s, ("cos", u)))
        check(h, s * s, ref=("^", s, 2))
        check(h, u * X.e ** u * X.log(u), ref=("*", u, ("^", ("e",), u), ("log", u)))
    @T.add("variable not given")
    def _(h):
        a = h.q("a", nz=True)
        n = h.i("n", 1, 3)
        h.seed_models()
        ok, r = h.run(lambda: X.diff(a * x ** R(n), None), "one symbol")
        if ok and h.true(isinstance(r, X.Expr), "one symbol", lambda: repr(r)): h.equal(r, ("D", a * x ** R(n), "x"), "one symbol")
        try:
            r = X.diff(a * x * y, None)
            h.true(False, "two symbols must raise", repr(r))
        except ValueError:
            h.true(True, "two symbols raise")
        try:
            r = X.diff(R(a), None)
            h.true(False, "no symbol must raise", repr(r))
        except ValueError:
            h.true(True, "no symbol raises")
    EB = {"y+b": lambda h: y + R(h.q("b", nz=True)), "yz": lambda h: y * S("z"), "pi": lambda h: X.pi, "sin y": lambda h: X.sin(y), "sqrt2": lambda h: X.sqrt(2), "ay": lambda h: h.q("b", pos=True) * y, "e": lambda h: X.e,
          "log y": lambda h: X.log(y), "y^n": lambda h: y ** R(h.q("b", nz=True)), "1/y": lambda h: 1 / y, "e+1": lambda h: X.e + 1, "y-z": lambda h: y - S("z"), "2pi": lambda h: 2 * X.pi, "|y|": lambda h: X.Abs(y), "log 2": lambda h: X.log(R(2))}
    for k in EB:
        def f(h, k=k):
            b, a = EB[k](h), h.q("a", nz=True)
            h.seed_models()
            check(h, b ** x, label="exponential")
            check(h, b ** (a * x), label="exponential of a multiple")
            check(h, b ** (x ** 2 + y), label="exponential of a sum")
            check(h, x * b ** X.sin(x), label="product with exponential")
        T.add("expbase:%s" % k)(f)
    PB = {"x": lambda h: x, "ax": lambda h: h.q("a", nz=True) * x, "x+a": lambda h: x + R(h.q("a", nz=True)), "x+y": lambda h: x + y, "x2+a": lambda h: x ** 2 + R(h.q("a", nz=True)), "xy": lambda h: x * y, "sin": lambda h: X.sin(x), "tan ax": lambda h: X.tan(h.q("a", nz=True) * x), "sec": lambda h: X.sec(x),
          "ln": lambda h: X.log(x), "sqrt+1": lambda h: X.sqrt(x) + 1, "e^x+1": lambda h: X.e ** x + 1, "atan": lambda h: X.atan(x), "x/(x+a)": lambda h: x / (x + R(h.q("a", nz=True))), "|x|": lambda h: X.Abs(x), "log2": lambda h: X.log(x, R(2)), "x ln": lambda h: x * X.log(x)}
    for (b, mb), (k, mk) in itertools.product(PB.items(), EB.items()):
        if tier == "quick" and b not in ("x", "sin", "x+a", "xy") and rng.random() < .6: continue
        def f(h, mb=mb, mk=mk):
            e, n = mb(h), mk(h)
            h.seed_models()
            check(h, e ** n, label="power with a symbolic exponent", ref=("^", e, n))
            check(h, x * e ** n, label="product with such a power", ref=("*", x, ("^", e, n)))
        T.add("powexp:%s^%s" % (b, k))(f)
    @T.add("unsupported raises")
    def _(h):
        a = h.q("a", nz=True)
        h.seed_models()
        check(h, x ** x)
        check(h, (x + R(a)) ** (a * x))
        check(h, X.sin(x) ** x)
    return T
