from ..tpl import *
import itertools, random, warnings

BOUNDS = ("sums of up to five terms and products of up to four factors of the listed trigonometric, logarithmic, polynomial and fractional shapes, arguments x, y, a*x, x+y and numbers, arbitrary rational coefficients "
          "(at most three per expression), trig powers up to 5; the whole of simplify and each of its parts on the shapes it is meant for and on the shapes of the other parts")
NOTE = "Values are compared where both sides are defined (so ln(x*y) = ln x + ln y is accepted where it is real)."

PER = {"quick": 10, "thorough": 300}

def templates(tier):
    warnings.simplefilter("ignore")
    T = TL()
    X = sp()
    import importlib
    SM = importlib.import_module("simpy.simplify.simplify")
    PS = importlib.import_module("simpy.simplify.product_to_sum")
    qk = tier == "quick"
    rng = random.Random(21)
    x, y, z = S("x"), S("y"), S("z")
    sin, cos, tan, sec, csc, cot, log, Abs = X.sin, X.cos, X.tan, X.sec, X.csc, X.cot, X.log, X.Abs
    ALLOW = ()
    FNS = {
        "simplify": lambda e: SM.simplify(e),
        "expand_logs": lambda e: SM.expand_logs(e),
        "pythagorean": lambda e: SM.pythagorean_simplification(e),
        "trig": lambda e: SM.trig_simplify(e)[0],
        "reciprocate": lambda e: SM.reciprocate_trigs(e),
        "fraction": lambda e: SM.rewrite_as_one_fraction(e),
        "fraction nc": lambda e: SM.rewrite_as_one_fraction(e, include_const_denoms=False),
        "pts": lambda e: PS.product_to_sum(e),
        "pts unit": lambda e: PS.product_to_sum_unit(e),
        "sectan": lambda e: SM.sectan(e),
    }
    def go(fn, nm, mk, **o):
        def f(h):
            e = mk(h)
            h.seed_models()
            ok, r = h.run(lambda: FNS[fn](e), fn)
            if not ok: return
            if r is None or r is False:
                h.true(True, "left alone")
                return
            if not h.true(isinstance(r, X.Expr), "an expression", lambda: repr(r)): return
            h.equal(r, e, fn, strict=False)
        T.add("%s:%s" % (fn, nm), **o)(f)
    a_ = lambda h, n="a": h.q(n, nz=True)
    # ---- Pythagorean identities: coefficient * trig^2 + coefficient (+ rest)
    TR = {"sin": sin, "cos": cos, "tan": tan, "sec": sec, "csc": csc, "cot": cot}
    PY = {}
    for n, f in TR.items():
        PY["%s2+b" % n] = lambda h, f=f: a_(h) * f(x) ** 2 + R(h.q("b", nz=True))
        PY["%s2+rest" % n] = lambda h, f=f: a_(h) * f(x + y) ** 2 + R(h.q("b", nz=True)) + z
        PY["%s2 y" % n] = lambda h, f=f: a_(h) * y * f(x) ** 2 + R(h.q("b", nz=True)) * y
        PY["%s2 two" % n] = lambda h, f=f: 1 + f(x) ** 2 + a_(h) * f(y) ** 2
        PY["%s2 pm" % n] = lambda h, f=f: R(h.i("b", -1, 1, nz=True)) + h.i("a", -1, 1, nz=True) * f(a_(h, "k") * x) ** 2
        PY["%s2 in" % n] = lambda h, f=f: X.sqrt(R(h.i("b", -1, 1, nz=True)) + h.i("a", -1, 1, nz=True) * f(x) ** 2) * y + 1
        PY["%s4" % n] = lambda h, f=f: f(x) ** 4 + a_(h) * f(x) ** 2 + R(h.q("b", nz=True))
        PY["%sn" % n] = lambda h, f=f: a_(h) * f(x) ** R(h.i("n", -4, 4)) + 1
    for f, g in itertools.combinations(TR, 2):
        PY["%s2+%s2" % (f, g)] = lambda h, f=f, g=g: a_(h) * TR[f](x) ** 2 + h.q("b", nz=True) * TR[g](x) ** 2
        PY["%s2+%s2+c" % (f, g)] = lambda h, f=f, g=g: a_(h) * TR[f](x) ** 2 + h.q("b", nz=True) * TR[g](x) ** 2 + (1, -1, 2)[h.choose(3, "c")] + z
        PY["%s2-%s2 xy" % (f, g)] = lambda h, f=f, g=g: TR[f](x) ** 2 - TR[g](y) ** 2 + TR[g](x) ** 2 + a_(h)
    SC = {
        "fac": lambda h: a_(h) * y * sin(x) ** 2 + h.q("b", nz=True) * y * cos(x) ** 2, "cross": lambda h: sin(x) ** 2 * cos(y) ** 2 + a_(h) * cos(x) ** 2 * cos(y) ** 2, "cross2": lambda h: sin(x) ** 2 * sin(y) ** 2 + cos(x) ** 2 * sin(y) ** 2 * a_(h), "three": lambda h: sin(x) ** 2 * cos(y) ** 2 + cos(x) ** 2 * cos(y) ** 2 + sin(y) ** 2 * a_(h), "four": lambda h: sin(x) ** 2 * cos(y) ** 2 + cos(x) ** 2 * cos(y) ** 2 + a_(h) * sin(x) ** 2 * sin(y) ** 2 + cos(x) ** 2 * sin(y) ** 2,
        "two pairs": lambda h: a_(h) * sin(x) ** 2 + h.q("b", nz=True) * cos(x) ** 2 + sin(y) ** 2 + cos(y) ** 2, "arg": lambda h: sin(a_(h) * x) ** 2 + cos(h.q("b", nz=True) * x) ** 2, "sq fac": lambda h: a_(h) * sin(x) ** 2 * tan(y) ** 2 + cos(x) ** 2 * tan(y) ** 2 + sec(y) ** 2, "sin2cos2": lambda h: sin(x) ** 2 * cos(x) ** 2 + cos(x) ** 4 * a_(h), "nested": lambda h: (a_(h) * sin(x) ** 2 + cos(x) ** 2) ** 2 + X.e ** (sin(y) ** 2 + cos(y) ** 2), "den": lambda h: y / (sin(x) ** 2 + a_(h) * cos(x) ** 2), "num": lambda h: sin(R(h.q("a"))) ** 2 + cos(R(h.q("b"))) ** 2, "exp": lambda h: x ** (sin(y) ** 2 + cos(y) ** 2) + a_(h), "x2": lambda h: x ** 2 * sin(x) ** 2 + x ** 2 * cos(x) ** 2 + a_(h) * x, "1-": lambda h: 1 - sin(x) ** 2 - cos(x) ** 2 * a_(h), "cubes": lambda h: a_(h) * sin(x) ** 3 + sin(x) * cos(x) ** 2,
    }
    PY.update({"sc " + k: v for k, v in SC.items()})
    for k, v in PY.items():
        go("pythagorean", k, v)
        if not qk or rng.random() < .4: go("simplify", k, v)
        if not qk or rng.random() < .2: go("trig", k, v)
    # ---- quotients and reciprocals
    RC = {}
    for f, g in itertools.product(TR, TR):
        RC["%s/%s" % (f, g)] = lambda h, f=f, g=g: a_(h) * TR[f](x) / TR[g](x)
        RC["%s^n %s^m" % (f, g)] = lambda h, f=f, g=g: a_(h) * TR[f](x) ** R(h.i("n", -3, 3)) * TR[g](x) ** R(h.i("m", -3, 3))
        RC["%s %s y" % (f, g)] = lambda h, f=f, g=g: TR[f](x) * TR[g](y) * a_(h) + z
        RC["1+%s/%s" % (f, g)] = lambda h, f=f, g=g: (1 + TR[f](x)) / (TR[g](x) + R(h.q("a")))
        RC["%s/x+%s/x" % (f, g)] = lambda h, f=f, g=g: TR[f](x) / x + a_(h) * TR[g](y) ** 2 / TR[f](x)
        RC["%s-%s" % (f, g)] = lambda h, f=f, g=g: TR[f](x) ** 2 - a_(h) * TR[g](x) / TR[f](x)
    for k, v in RC.items():
        r = rng.random()
        if not qk or r < .25: go("reciprocate", k, v)
        if not qk or r > .75: go("simplify", k, v)
        if not qk or .3 < r < .42: go("trig", k, v)
    # ---- sec/tan sums
    ST = {}
    for n, m in itertools.product((2, 4, -2, 6), (2, 4, -2)):
        ST["sec%d tan%d" % (n, m)] = lambda h, n=n, m=m: a_(h) * sec(x) ** n + h.q("b", nz=True) * tan(x) ** m
        ST["sec%d tan%d rest" % (n, m)] = lambda h, n=n, m=m: a_(h) * sec(x) ** n + h.q("b", nz=True) * tan(x) ** m + tan(y) ** 2 + (1, -2, h.q("c"))[h.choose(3, "k")]
        ST["sec%d tan%d y" % (n, m)] = lambda h, n=n, m=m: a_(h) * sec(y) ** n + tan(x) ** m + h.q("b", nz=True) * tan(y) ** 2
    for k, v in ST.items():
        go("sectan", k, v)
        if not qk or rng.random() < .25: go("simplify", k, v)
    # ---- product to sum
    P1 = {"sin x": sin(x), "cos x": cos(x), "sin y": sin(y), "cos y": cos(y), "sin 2x": sin(2 * x), "cos x+y": cos(x + y), "cos 3x": cos(3 * x), "sin z": sin(z)}
    sh = list(P1)
    for a, b in itertools.product(sh, sh):
        if not qk or rng.random() < .4: go("pts unit", "%s*%s" % (a, b), lambda h, a=a, b=b: a_(h) * P1[a] * P1[b])
        if not qk or rng.random() < .15: go("pts unit", "%s*%s^n" % (a, b), lambda h, a=a, b=b: a_(h) * P1[a] * P1[b] ** R(h.i("n", 2, 4)))
        if not qk or rng.random() < .1: go("pts unit", "%s^m*%s^n" % (a, b), lambda h, a=a, b=b: a_(h) * P1[a] ** R(h.i("m", 1, 3)) * P1[b] ** R(h.i("n", -1, 3)))
    for k in range(18 if qk else 100):
        c = [(rng.choice(sh), rng.choice((1, 1, 2, 3))) for _ in range(rng.choice((3, 3, 4)))]
        if sum(n for _, n in c) > 6: continue
        go("pts unit", "%d:%s" % (k, "*".join("%s^%d" % p for p in c)), lambda h, c=c: X.Prod([a_(h)] + [P1[t] ** n for t, n in c]))
    for a, b, c, d in [[rng.choice(sh) for _ in range(4)] for _ in range(24 if qk else 150)]:
        go("pts", "%s*%s+%s*%s" % (a, b, c, d), lambda h, a=a, b=b, c=c, d=d: a_(h) * P1[a] * P1[b] + h.q("b", nz=True) * P1[c] * P1[d]) if ("pts:%s*%s+%s*%s" % (a, b, c, d)) not in [t["name"] for t in T] else None
    for k, v in {"cancel": lambda h: a_(h) * cos(x) * sin(2 * x) + h.q("b", nz=True) * cos(2 * x) * sin(x), "cancel2": lambda h: a_(h) * cos(x) * cos(y) + h.q("b", nz=True) * sin(x) * sin(y), "sq": lambda h: a_(h) * cos(x) ** 2 + h.q("b", nz=True) * cos(2 * x) + y, "x": lambda h: x * sin(y) * cos(y) + a_(h) * x * sin(2 * y), "three": lambda h: sin(x) * cos(x) * a_(h) + sin(2 * x) + h.q("b", nz=True) * sin(x) ** 3, "pi": lambda h: X.pi * sin(x) * cos(y) + X.pi * a_(h) * cos(x) * sin(y), "sum arg": lambda h: sin(x + y) * cos(x - y) + a_(h) * sin(2 * x), "tan": lambda h: tan(x) * sin(x) + a_(h) * sin(x) * cos(x)}.items():
        go("pts", k, v)
        go("simplify", "pts " + k, v)
    # ---- logarithms
    BS = {"e": X.e, "2": R(2), "10": R(10), "x": x, "y+1": y + 1}
    LG = {
        "xy": lambda h: x * y, "ax": lambda h: R(h.q("a", pos=True)) * x, "-ax": lambda h: -R(h.q("a", pos=True)) * x, "x^n": lambda h: x ** R(h.q("n", nz=True)), "ax^n": lambda h: R(h.q("a", pos=True)) * x ** R(h.i("n", -3, 3)) * y, "x/y": lambda h: x / y, "x^y": lambda h: x ** y, "sqrt": lambda h: X.sqrt(x * y), "sum": lambda h: x + R(h.q("a")), "fsum": lambda h: x ** 2 + h.q("a", nz=True) * x, "fsum2": lambda h: a_(h) * x * y + h.q("b", nz=True) * x, "sec": lambda h: sec(x), "csc": lambda h: csc(x) ** 2, "cot": lambda h: a_(h) * cot(x), "|xy|": lambda h: Abs(x * y), "|x^n|": lambda h: Abs(x ** R(h.i("n", -3, 3))), "|ax|": lambda h: Abs(a_(h) * x), "|fsum|": lambda h: Abs(x ** 2 + a_(h) * x), "|sec|": lambda h: Abs(sec(x)), "|sec+tan|": lambda h: Abs(sec(x) + tan(x)), "e^x": lambda h: X.e ** (a_(h) * x), "e^x y": lambda h: X.e ** x * y, "a^x": lambda h: R(h.q("a", pos=True)) ** x, "lnln": lambda h: X.log(x * y), "(xy)^n": lambda h: (x * y + 1) ** R(h.i("n", -2, 3)), "num": lambda h: R(h.q("a", pos=True)), "pi": lambda h: X.pi * x ** 2, "frac": lambda h: (x + 1) / (y * x),
    }
    for b, k in itertools.product(BS, LG):
        if qk and b not in ("e", "2") and rng.random() < .6: continue
        mk = lambda h, b=b, k=k: X.log(LG[k](h), BS[b])
        go("expand_logs", "%s:%s" % (b, k), mk)
        if not qk or rng.random() < .4: go("expand_logs", "in:%s:%s" % (b, k), lambda h, mk=mk: (mk(h) + x) * z + mk(h) * 2)
        if not qk or rng.random() < .3: go("simplify", "log:%s:%s" % (b, k), lambda h, mk=mk: mk(h) - X.log(x) + h.q("c") * y)
    for f in TR:
        go("simplify", "log trig:%s" % f, lambda h, f=f: X.log(Abs(TR[f](x)) * x, 2) + a_(h) * TR[f](x) ** 2)
    # ---- one fraction
    FR = {"x/y": lambda h, t: x / y, "a/x": lambda h, t: R(h.q("a" + t, nz=True)) / x, "1/x^n": lambda h, t: x ** R(h.i("n" + t, -3, 2)), "x/(x+1)": lambda h, t: x / (x + R(h.q("b" + t))), "(x+1)^-2": lambda h, t: (x + 1) ** R(-2) * R(h.q("a" + t, nz=True)), "ax": lambda h, t: R(h.q("a" + t, nz=True)) * x, "c": lambda h, t: R(h.q("c" + t)), "y": lambda h, t: y, "1/xy": lambda h, t: R(h.q("a" + t, nz=True)) / (x * y), "sin/cos": lambda h, t: sin(x) / cos(x), "1/sin^2": lambda h, t: 1 / sin(x) ** 2, "1/sqrt": lambda h, t: 1 / X.sqrt(x), "x/sqrt2": lambda h, t: x / X.sqrt(2), "e^-x": lambda h, t: X.e ** (-x), "x/pi": lambda h, t: x / X.pi, "1/(x+1)": lambda h, t: 1 / (x + 1), "y/(x+1)^3": lambda h, t: y / (x + 1) ** 3, "1/2^x": lambda h, t: 1 / R(2) ** x}
    prs = list(itertools.combinations_with_replacement(FR, 2))
    for a, b in (rng.sample(prs, 55) if qk else prs):
        go(rng.choice(("fraction", "fraction nc")), "%s + %s" % (a, b), lambda h, a=a, b=b: FR[a](h, "0") + FR[b](h, "1"))
    for k in range(25 if qk else 200):
        c = [rng.choice(list(FR)) for _ in range(3)]
        go(rng.choice(("fraction", "fraction nc", "simplify")), "%d:%s" % (k, " + ".join(c)), lambda h, c=c: FR[c[0]](h, "0") + FR[c[1]](h, "1") + FR[c[2]](h, "2"))
    # ---- everything else through simplify
    for k, mk in MK.items():
        go("simplify", "shape:" + k, lambda h, mk=mk: mk(h, "0") * (x + 1) + mk(h, "0") ** 2)
    for k, v in {"poly": lambda h: (x + R(h.q("a"))) ** 3 - x ** 3, "diff": lambda h: (x + y) * (x - y) + a_(h) * y ** 2, "inv": lambda h: X.asin(x) + X.acos(x) + X.atan(a_(h) * y), "tri": lambda h: sin(x) ** 2 * tan(x) / (1 - cos(x) ** 2) * a_(h), "float": lambda h: X.Float(0.5) * sin(x) ** 2 + X.Float(0.5) * cos(x) ** 2, "abs": lambda h: Abs(sin(x)) ** 2 + a_(h) * cos(x) ** 2, "big": lambda h: (1 - sin(x) ** 2) / cos(x) + a_(h) * sec(x) - tan(x) * sin(x), "cos2": lambda h: cos(2 * x) * a_(h) + 2 * sin(x) ** 2, "frac": lambda h: a_(h) / (1 + tan(x) ** 2) + sin(x) ** 2, "sqrt": lambda h: X.sqrt(a_(h) * tan(x) ** 2 + 1), "prodsum": lambda h: (sin(x) + cos(x)) ** 2 * a_(h) - 1, "secant": lambda h: (sec(x) + tan(x)) * (sec(x) - tan(x)) * a_(h), "cplx": lambda h: tan(x) / sin(x) - a_(h) * sec(x), "cplx2": lambda h: sec(x) - cos(x) - a_(h) * sin(x) * tan(x), "cplx3": lambda h: (cot(x) + tan(x)) * a_(h) - sec(x) * csc(x), "cplx4": lambda h: csc(x) ** 2 / cot(x) + a_(h) * tan(x), "two var": lambda h: tan(x) + a_(h) * tan(y) * sec(x)}.items():
        go("simplify", k, v)
        go("trig", k, v)
    return T
