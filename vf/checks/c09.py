from ..tpl import *
import itertools, random, warnings

BOUNDS = ("sin, cos, tan, sec, csc, cot of n*pi/d for every integer n (no bound) and d in 1,2,3,4,5,6,8,10,12, with and without an added expression of the listed shapes; every function of the listed argument shapes "
          "with arbitrary rational coefficients, negated and not, exponents -3..3; every composition of two functions; log with number, constant and symbolic bases")
NOTE = ("Known finding C09-inverse-of-trig (asin(sin x) and the like return x outside the principal range, and 1/x for reciprocal pairs); the remaining obligation there, that the result "
        "has the right value on the principal range or the right trig value, is still checked.")

PER = {"quick": 30, "thorough": 400}

FN = ("sin", "cos", "tan", "sec", "csc", "cot")
INV = ("asin", "acos", "atan")

def templates(tier):
    warnings.simplefilter("ignore")
    T = TL()
    X = sp()
    qk = tier == "quick"
    x, y, z = S("x"), S("y"), S("z")
    def fn(n): return getattr(X, n)
    def ref(n, a):
        return (n, a)
    dens = (1, 2, 3, 4, 6, 12, 5, 8, 10)
    for f, d in itertools.product(FN, dens):
        @T.add("special:%s:%d" % (f, d))
        def _(h, f=f, d=d):
            q = h.frac("n", d)
            h.seed_models()
            a = X.pi * R(q)
            ok, r = h.run(lambda: fn(f)(a), f)
            if ok: h.equal(r, ref(f, a), "%s(n*pi/%d)" % (f, d))
    for f in FN:
        @T.add("special:%s:any" % f)
        def _(h, f=f):
            q = h.q("q")
            h.seed_models()
            a = X.pi * R(q)
            ok, r = h.run(lambda: fn(f)(a), f)
            if ok: h.equal(r, ref(f, a), "%s(q*pi)" % f)
        # written differently
        @T.add("special:%s:forms" % f)
        def _(h, f=f):
            d = (2, 3, 4, 6)[h.choose(4, "d")]
            n = h.i("n", -6, 6)
            h.seed_models()
            for mk in (lambda: n * X.pi / d, lambda: X.pi / d * n, lambda: -(X.pi * -n) / d, lambda: X.Prod([R(n), X.pi, R(F(1, d))]), lambda: X.pi - (1 - R(n) / d) * X.pi, lambda: X.pi / d + X.pi * R(n - 1) / d):
                a = mk()
                ok, r = h.run(lambda: fn(f)(a), f)
                if ok: h.equal(r, ref(f, ("*", R(F(1, d)), R(n), X.pi)), "%s(n*pi/d)" % f)
    SH = {
        "x": lambda h: x, "ax": lambda h: h.q("a", nz=True) * x, "x+y": lambda h: x + h.q("a", nz=True) * y, "x+b": lambda h: x + R(h.q("b", nz=True)), "-x-y": lambda h: -x - h.q("a", pos=True) * y, "x^n": lambda h: h.q("a", nz=True) * x ** R(h.i("n", -3, 3)), "x/y": lambda h: h.q("a") * x / y, "sqrt": lambda h: X.sqrt(x), "ln": lambda h: -X.log(x), "e^": lambda h: X.e ** (h.q("a") * x), "abs": lambda h: X.Abs(x - 1), "pix": lambda h: h.q("a", nz=True) * X.pi * x, "num": lambda h: R(h.q("a")), "cst": lambda h: X.sqrt(2) * R(h.q("a")), "-sum": lambda h: -(x + y), "asin+": lambda h: X.asin(x) + R(h.q("b")), "2asin": lambda h: h.i("n", -2, 2) * X.asin(x), "frac": lambda h: (x - y) / (x + y),
        "-prod": lambda h: -x * (y - 1), "negcoef": lambda h: R(h.q("a")) * (x + 1), "pi e": lambda h: X.pi * X.e * R(h.q("a")), "pi^2": lambda h: X.pi ** 2 * R(h.q("a")), "pi+b": lambda h: X.pi * R(h.q("a")) + R(h.q("b")), "1/pi": lambda h: R(h.q("a")) / X.pi, "piy+x": lambda h: h.q("a") * X.pi * y + x, "pi(1+x)": lambda h: X.pi * (x + R(h.q("a"))),
    }
    for f, s in itertools.product(FN, SH):
        @T.add("%s:%s" % (f, s))
        def _(h, f=f, s=s):
            a = SH[s](h)
            h.seed_models()
            ok, r = h.run(lambda: fn(f)(a), f)
            if ok: h.equal(r, ref(f, a), f)
            ok, r = h.run(lambda: fn(f)(-a), f + " neg")
            if ok: h.equal(r, ref(f, ("neg", a)), f + " of the negated argument")
    for f, s in itertools.product(INV + ("Abs", "log"), SH):
        @T.add("%s:%s" % (f, s))
        def _(h, f=f, s=s):
            a = SH[s](h)
            h.seed_models()
            nm = "abs" if f == "Abs" else f
            ok, r = h.run(lambda: fn(f)(a), f)
            if ok: h.equal(r, ref(nm, a), f)
            ok, r = h.run(lambda: fn(f)(-a), f + " neg")
            if ok: h.equal(r, ref(nm, ("neg", a)), f + " of the negated argument")
    # shifts by a multiple of pi
    SHF = {"x": SH["x"], "ax": SH["ax"], "x+y": SH["x+y"], "-sum": SH["-sum"], "asin+": lambda h: X.asin(x) + y, "atan": lambda h: X.atan(x), "-asin": lambda h: -X.asin(x), "acos": lambda h: X.acos(x), "x+b": SH["x+b"], "piy": lambda h: X.pi * y, "-x": lambda h: -x, "-ln": lambda h: -X.log(x), "x^2": lambda h: x ** 2 - y}
    for f, s in itertools.product(FN, SHF):
        for d in ((1, 2) if qk else (1, 2, 3, 4, 6)):
            @T.add("shift:%s:%s:%d" % (f, s, d))
            def _(h, f=f, s=s, d=d):
                a = SHF[s](h)
                q = h.frac("k", d)
                h.seed_models()
                for lab, mk, rf in (("+", lambda: a + X.pi * R(q), ("+", a, ("*", R(q), X.pi))), ("-", lambda: X.pi * R(q) - a, ("-", ("*", R(q), X.pi), a))):
                    ok, r = h.run(lambda: fn(f)(mk()), f)
                    if ok: h.equal(r, ref(f, rf), "%s shifted %s" % (f, lab))
        @T.add("shift2:%s:%s" % (f, s))
        def _(h, f=f, s=s):
            a = SHF[s](h)
            k, m = h.i("k", -4, 4), h.i("m", -4, 4)
            h.seed_models()
            b = a + X.pi * R(2 * k) + X.pi * y * m
            ok, r = h.run(lambda: fn(f)(b), f)
            if ok: h.equal(r, ref(f, ("+", a, ("*", R(2 * k), X.pi), ("*", X.pi, y, R(m)))), "two multiples of pi")
    # compositions
    ARG = {"x": lambda h: x, "ax": lambda h: h.q("a", nz=True) * x, "x+b": lambda h: x + R(h.q("b", nz=True)), "1/x": lambda h: R(h.q("a", nz=True)) / x, "num": lambda h: R(h.frac("a", 5, -5, 5)), "sqrt": lambda h: X.sqrt(x), "-x": lambda h: -x, "sin": lambda h: X.sin(x) + y}
    for f, g, s in itertools.product(FN, INV, ARG):
        @T.add("comp:%s %s:%s" % (f, g, s))
        def _(h, f=f, g=g, s=s):
            a = ARG[s](h)
            h.seed_models()
            ok, b = h.run(lambda: fn(g)(a), g)
            if not ok: return
            ok, r = h.run(lambda: fn(f)(b), "%s %s" % (f, g))
            if ok: h.equal(r, ref(f, (g, a)), "%s(%s)" % (f, g))
            ok, r = h.run(lambda: fn(f)(-b), "%s -%s" % (f, g))
            if ok: h.equal(r, ref(f, ("neg", (g, a))), "%s(-%s)" % (f, g))
            ok, r = h.run(lambda: fn(f)(2 * b), "%s 2%s" % (f, g))
            if ok: h.equal(r, ref(f, ("*", R(2), (g, a))), "%s(2%s)" % (f, g))
            ok, r = h.run(lambda: fn(f)(b + X.pi), "%s %s+pi" % (f, g))
            if ok: h.equal(r, ref(f, ("+", X.pi, (g, a))), "%s(%s + pi)" % (f, g))
    REC = {"sin": "csc", "cos": "sec", "tan": "cot"}
    for f, g, s in itertools.product(INV, FN, ("x", "ax", "x+b")):
        if REC[f[1:]] == g and f != "atan" or (f, g) in (("asin", "sec"), ("acos", "csc")): continue    # defined at isolated points only
        @T.add("icomp:%s %s:%s" % (f, g, s))
        def _(h, f=f, g=g, s=s):
            a = ARG[s](h)
            h.seed_models()
            ok, r = h.run(lambda: fn(f)(fn(g)(a)), "%s %s" % (f, g))
            if not ok: return
            if f[1:] == g:
                # right up to periods and reflections
                if h.equal((g, r), (g, a), "%s of %s(%s)" % (g, f, g)) is False: return
                if type(r).__name__ != f: h.known("C09-inverse-of-trig")
            elif REC[f[1:]] == g and type(r).__name__ != f: h.known("C09-inverse-of-trig")
            h.equal(r, (f, (g, a)), "%s(%s)" % (f, g))
    # forward functions of forward functions, logs and absolute values of functions
    for f, g in itertools.product(FN + INV + ("Abs", "log"), FN + ("Abs", "log", "asin", "acos", "atan")):
        if f in INV and g in FN or f in FN and g in INV: continue
        @T.add("nest:%s %s" % (f, g))
        def _(h, f=f, g=g):
            a = h.q("a", nz=True) * x + R(h.q("b"))
            h.seed_models()
            nf, ng = ("abs" if t == "Abs" else t for t in (f, g))
            ok, r = h.run(lambda: fn(f)(fn(g)(a)), "%s %s" % (f, g))
            if ok: h.equal(r, (nf, (ng, a)), "%s(%s)" % (f, g))
            ok, r = h.run(lambda: fn(f)(-2 * fn(g)(a) ** 2), "%s -2%s^2" % (f, g))
            if ok: h.equal(r, (nf, ("*", R(-2), ("^", (ng, a), R(2)))), "%s(-2 %s^2)" % (f, g))
    # logs
    BASE = {"e": lambda h: X.e, "2": lambda h: R(2), "q": lambda h: R(h.q("B", pos=True)), "x": lambda h: x, "x+1": lambda h: x + 1, "pi": lambda h: X.pi, "sqrt2": lambda h: X.sqrt(2), "e^2": lambda h: X.e ** 2, "y^n": lambda h: y ** R(h.q("m")), "fl": lambda h: X.Float(2.0)}
    INNER = {"b": lambda h, b: b, "b^n": lambda h, b: b ** R(h.q("n")), "b^y": lambda h, b: b ** y, "b^(ax)": lambda h, b: b ** (h.q("n", nz=True) * x), "1/b": lambda h, b: 1 / b, "c b": lambda h, b: R(h.q("n", pos=True)) * b, "1": lambda h, b: R(1), "q": lambda h, b: R(h.q("n", pos=True)), "x": lambda h, b: x, "e": lambda h, b: X.e, "e^": lambda h, b: X.e ** (x + R(h.q("n"))), "sqrt": lambda h, b: X.sqrt(b), "b b": lambda h, b: b * b * x, "b^log": lambda h, b: b ** X.log(x, b), "x^n": lambda h, b: x ** R(h.i("n", -3, 3)), "abs": lambda h, b: X.Abs(x * y), "pi": lambda h, b: X.pi ** R(h.q("n"))}
    for b, i in itertools.product(BASE, INNER):
        if b == "fl" and i in ("q", "c b", "sqrt", "b^n"): continue
        @T.add("log:%s:%s" % (b, i))
        def _(h, b=b, i=i):
            bb = BASE[b](h)
            a = INNER[i](h, bb)
            h.seed_models()
            ok, r = h.run(lambda: X.log(a, bb), "log")
            if ok: h.equal(r, ("log", a, bb), "log")
            if b == "e":
                ok, r = h.run(lambda: X.log(a), "ln")
                if ok: h.equal(r, ("log", a), "ln")
    # absolute values
    AB = {"q": lambda h: R(h.q("a")), "q x": lambda h: R(h.q("a")) * x, "q x y^n": lambda h: R(h.q("a")) * x * y ** R(h.i("n", -3, 3)), "pi": lambda h: X.pi * R(h.q("a")), "pi+q": lambda h: X.pi + R(h.q("a", pos=True)), "pi-q": lambda h: X.pi + R(h.q("a")), "e^q": lambda h: X.e ** R(h.q("a")), "pi^x": lambda h: X.pi ** x * R(h.q("a")), "2^x": lambda h: R(h.q("a", pos=True)) ** x, "x^2": lambda h: x ** R(h.i("n", -4, 4)), "(x+b)^n": lambda h: (x + R(h.q("b"))) ** R(h.i("n", -4, 4)), "x^2+1": lambda h: x ** 2 + R(h.q("a")), "sqrt": lambda h: X.sqrt(x), "sqrt2": lambda h: X.sqrt(2) * R(h.q("a")) + X.e, "|x|": lambda h: X.Abs(x) * R(h.q("a")), "||": lambda h: X.Abs(X.Abs(x) + R(h.q("a"))), "-(x+y)": lambda h: -(x + y), "x-y": lambda h: x - h.q("a", nz=True) * y, "e^x": lambda h: X.e ** x - R(h.q("a")), "ln": lambda h: X.log(x), "lnq": lambda h: X.log(R(h.q("a", pos=True))), "fl": lambda h: X.Float(-0.5), "flx": lambda h: X.Float(-0.5) * x, "sin": lambda h: X.sin(x) * R(h.q("a")), "frac": lambda h: R(h.q("a")) / (x - y), "sqrt-": lambda h: 1 - X.sqrt(R(h.q("a", pos=True))), "pi e": lambda h: X.pi * X.e - R(h.q("a")), "neg^": lambda h: (-x) ** R(h.i("n", -3, 3)), "pi-e": lambda h: h.q("a", nz=True) * X.pi - X.e}
    for k in AB:
        @T.add("abs:%s" % k)
        def _(h, k=k):
            a = AB[k](h)
            h.seed_models()
            ok, r = h.run(lambda: X.Abs(a), "Abs")
            if ok: h.equal(r, ("abs", a), "Abs")
            ok, r = h.run(lambda: X.Abs(-a), "Abs neg")
            if ok: h.equal(r, ("abs", a), "Abs of the negated argument")
            ok, r = h.run(lambda: X.Abs(a) * X.Abs(-a), "product")
            if ok: h.equal(r, ("*", ("abs", a), ("abs", a)), "Abs squared")
    # shared instances are not changed by another construction
    @T.add("again")
    def _(h):
        f = ("cos", "sec", "sin", "tan")[h.choose(4, "f")]
        a = h.q("a", nz=True) * x
        h.seed_models()
        p = fn(f)(a)
        q = fn(f)(-a)
        p2 = fn(f)(a)
        h.equal(p, (f, a), "first"); h.equal(q, (f, ("neg", a)), "negated"); h.equal(p2, (f, a), "again")
        r = fn(f)(X.acos(p)) if f == "cos" else p
        h.equal(p, (f, a), "unchanged")
    return T
