from ..tpl import *
import itertools, random, warnings

BOUNDS = ("sums of two to four terms, each an arbitrary rational coefficient times a product of up to four of the listed factors with integer exponents -3..3 or the listed rational ones; "
          "the factor planted in every term, with independent exponents; decimals, constants and nested sums as factors")
NOTE = "Completeness is decided on factors planted in every term: after factoring, no planted factor remains in all terms of the remaining sum, and the power outside is the one with the smallest exponent."

PER = {"quick": 14, "thorough": 300}

def templates(tier):
    warnings.simplefilter("ignore")
    T = TL()
    X = sp()
    qk = tier == "quick"
    x, y, z, w = S("x"), S("y"), S("z"), S("w")
    rng = random.Random(9)
    FAC = {
        "1": lambda h, t: R(1), "x": lambda h, t: x, "y": lambda h, t: y, "xy": lambda h, t: x * y, "x^n": lambda h, t: x ** R(h.i("n" + t, -3, 3)), "y^n": lambda h, t: y ** R(h.i("m" + t, -2, 2)), "x/y": lambda h, t: x / y, "sqrt": lambda h, t: X.sqrt(x), "x^3/2": lambda h, t: x ** R(F(3, 2)), "x^-1/2": lambda h, t: x ** R(F(-1, 2)), "lin": lambda h, t: x + 1, "lin^n": lambda h, t: (x + 1) ** R(h.i("n" + t, -2, 2)), "x+b": lambda h, t: x + R(h.q("b" + t, nz=True)), "sin": lambda h, t: X.sin(x), "sin^n": lambda h, t: X.sin(x) ** R(h.i("n" + t, -2, 2)), "e^x": lambda h, t: X.e ** x, "e^ax": lambda h, t: X.e ** (h.q("k" + t, nz=True) * x), "x^y": lambda h, t: x ** y, "ln": lambda h, t: X.log(x) ** 2, "pi": lambda h, t: X.pi, "pi^n": lambda h, t: X.pi ** R(h.i("n" + t, -2, 2)), "r2": lambda h, t: X.sqrt(2), "r2x": lambda h, t: X.sqrt(2) * x, "2^y": lambda h, t: R(2) ** y, "abs": lambda h, t: X.Abs(x - y), "xyz": lambda h, t: x * y * z, "mix": lambda h, t: x ** 2 * (x + 1) * X.sin(x), "log2": lambda h, t: X.log(x, 2), "tan/": lambda h, t: X.tan(x) / x, "z": lambda h, t: z, "w": lambda h, t: w ** 2,
    }
    ks = list(FAC)
    def go(nm, terms, **o):
        def f(h):
            ts = terms(h)
            h.seed_models()
            try: s = X.Sum(ts)
            except (ZeroDivisionError, NotImplementedError): return
            if not isinstance(s, X.Sum): return
            n0 = len(s.terms)
            ok, r = h.run(lambda: s.factor(), "factor")
            if not ok: return
            if not h.true(isinstance(r, X.Expr), "an expression", lambda: repr(r)): return
            h.equal(r, s, "factor")
        T.add(nm, **o)(f)
    def coef(t):
        X = sp()
        if isinstance(t, X.Rat): return t.value
        if isinstance(t, X.Prod):
            rs = [p for p in t.terms if isinstance(p, X.Rat)]
            if any(isinstance(p, X.Num) and not isinstance(p, X.Rat) for p in t.terms): return None
            return rs[0].value if len(rs) == 1 else (F(1) if not rs else None)
        if isinstance(t, X.Num): return None
        return F(1)
    def lead(t):
        c = coef(t)
        return c is not None and bool(c < 0)
    prs = list(itertools.combinations_with_replacement(ks, 2))
    for a, b in (rng.sample(prs, 80) if qk else prs):
        go("two:%s+%s" % (a, b), lambda h, a=a, b=b: [R(h.q("c0", nz=True)) * FAC[a](h, "0"), R(h.q("c1", nz=True)) * FAC[b](h, "1")])
    for k in range(40 if qk else 500):
        c = [rng.choice(ks) for _ in range(rng.choice((3, 3, 4)))]
        cf = lambda h, i, n=len(c), g=rng.sample(range(len(c)), 1 if qk else 2), v=[rng.choice((1, -1, 2, F(3, 2), -4, 6)) for _ in c]: h.q("c%d" % i, nz=True) if i in g else v[i]
        go("many%d:%s" % (k, "+".join(c)), lambda h, c=c, cf=cf: [R(cf(h, i)) * FAC[f](h, str(i)) for i, f in enumerate(c)])
    # products of two factors
    for k in range(40 if qk else 500):
        c = [(rng.choice(ks), rng.choice(ks)) for _ in range(rng.choice((2, 2, 3)))]
        cf = lambda h, i, g=rng.sample(range(len(c)), 1), v=[rng.choice((1, -1, 2, F(3, 2), -4, 6)) for _ in c]: h.q("c%d" % i, nz=True) if i in g else v[i]
        go("prods%d:%s" % (k, "+".join("%s*%s" % p for p in c)), lambda h, c=c, cf=cf: [R(cf(h, i)) * FAC[f](h, str(i) + "a") * FAC[g](h, str(i) + "b") for i, (f, g) in enumerate(c)])
    # planted factors
    PL = {"x": x, "sin": X.sin(x), "ln": X.log(y), "pi": X.pi, "abs": X.Abs(x - 2)}
    REST = [R(1), y, z, X.cos(z), y ** 2 * z, 1 / y, X.sqrt(z), y + 3, X.atan(z)]
    def exps(h, p, nm, lo, hi):
        return h.i(nm, lo, hi)
    for p, n in itertools.product(PL, (2, 3)):
        for v in range(2 if qk else 12):
            rs = rng.sample(REST, n)
            def f(h, p=p, n=n, rs=rs, v=v):
                base = PL[p]
                pos = h.choose(2, "pos")
                ns = [(2 if pos else -2) if i == 2 else h.i("n%d" % i, 1, 3 if i else 2) if pos else h.i("n%d" % i, -3 if i else -2, -1) for i in range(n)]
                cs = [h.q("c%d" % i, nz=True) if i == 0 and (n == 2 or not qk) else (-2, 3, 1)[i] for i in range(n)]
                h.seed_models()
                ts = [R(c) * base ** R(m) * r for c, m, r in zip(cs, ns, rs)]
                s = X.Sum(ts)
                if not isinstance(s, X.Sum): return
                ok, r = h.run(lambda: s.factor(), "factor")
                if not ok: return
                if h.equal(r, s, "factor") is False: return
                # the outside power is the one nearest zero among the exponents: no remaining term of every sum has the factor on that side
                best = ns[0]
                for m in ns[1:]:
                    if (m < best) == bool(pos): best = m
                fs = r.terms if isinstance(r, X.Prod) else [r]
                inner = [t for t in fs if isinstance(t, X.Sum)]
                if not h.true(len(inner) <= 1, "shape", lambda: h.show(r)): return
                out = 0
                for t in fs:
                    if same(t, base): out = out + 1
                    elif isinstance(t, X.Power) and same(t.base, base) and isinstance(t.exponent, X.Rat): out = out + t.exponent.value
                h.true(bool(out == best), "smallest common exponent outside", lambda: "%s of %s" % (h.show(r), h.show(s)))
            T.add("planted:%s:%d:%d" % (p, n, v))(f)
    def same(a, b):
        try: return bool(a == b)
        except Exception: return False
    # a coefficient common to all terms, up to sign
    for n in (2, 3):
        def f(h, n=n):
            c = h.q("c", nz=True)
            sg = [(1, -1)[h.choose(2, "s%d" % i)] for i in range(n)]
            h.seed_models()
            s = X.Sum([R(c * k) * t for k, t in zip(sg, (x, y, z))])
            ok, r = h.run(lambda: s.factor(), "factor")
            if not ok or h.equal(r, s, "factor") is False: return
            fs = r.terms if isinstance(r, X.Prod) else [r]
            inner = [t for t in fs if isinstance(t, X.Sum)]
            if not h.true(len(inner) == 1 and len(inner[0].terms) == n, "shape", lambda: h.show(r)): return
            cs = [coef(t) for t in inner[0].terms]
            if not h.true(all(bool(k == 1) or bool(k == -1) for k in cs), "common coefficient pulled out", lambda: "%s of %s" % (h.show(r), h.show(s))): return
            if not bool(abs(c) == 1): h.true(not all(bool(k == -1) for k in cs), "common sign pulled out", lambda: "%s of %s" % (h.show(r), h.show(s)))
        T.add("content:%d" % n)(f)
    # coefficients that are integer multiples of each other
    for n in (2, 3):
        def f(h, n=n):
            c = F(2, 3)
            ks_ = [h.i("k%d" % i, -3, 3, nz=True) if i < 2 else -4 for i in range(n)]
            h.seed_models()
            s = X.Sum([R(c * k) * t for k, t in zip(ks_, (x, y, z))])
            ok, r = h.run(lambda: s.factor(), "factor")
            if ok: h.equal(r, s, "factor")
        T.add("multiples:%d" % n)(f)
    # unusual terms
    ODD = {
        "floats": lambda h: X.Float(0.5) * x + X.Float(0.25) * x ** 2, "float+rat": lambda h: X.Float(0.5) * x + h.q("a", nz=True) * x * y, "float const": lambda h: X.Float(0.5) + h.q("a", nz=True) * x, "-floats": lambda h: X.Float(-0.5) * x * y - X.Float(0.25) * x, "const": lambda h: R(h.q("a", nz=True)) + X.pi, "pi e": lambda h: X.pi * R(h.q("a", nz=True)) + X.e * R(h.q("b", nz=True)), "nested": lambda h: x * (y * (x + 1) + z) * R(h.q("a", nz=True)) + x * y, "roots": lambda h: X.sqrt(2) * R(h.q("a", nz=True)) + X.sqrt(6) * x, "x+x": lambda h: h.q("a", nz=True) * x + h.q("b", nz=True) * x ** 2 + 3, "neg pow": lambda h: h.q("a", nz=True) / x + h.q("b", nz=True) / x ** 2, "opposite": lambda h: h.q("a", nz=True) / x + h.q("b", nz=True) * x, "sqr": lambda h: X.sqrt(x) * R(h.q("a", nz=True)) + x, "q^": lambda h: R(2) ** R(F(1, 3)) * x + R(2) ** R(F(2, 3)) * y * R(h.q("a", nz=True)), "e^": lambda h: X.e ** 2 * x + X.e ** 3 * y * R(h.q("a", nz=True)), "x^q": lambda h: x ** R(h.q("n")) * y + x ** R(h.q("m")) * z, "x^y": lambda h: x ** y * h.q("a", nz=True) + x ** (2 * y), "prod of sums": lambda h: (x + 1) * (y + 1) * R(h.q("a", nz=True)) + (y + 1) * (x + 1) ** 2, "rat^": lambda h: (h.q("a", nz=True) * x + 1) ** 2 * x + x / (h.q("a", nz=True) * x + 1),
        "minus sqrt": lambda h: -X.sqrt(2) * x - X.sqrt(3) * y * R(h.q("a", pos=True)),
    }
    for k in ODD:
        go("odd:" + k, lambda h, k=k: [t for t in [ODD[k](h)]] + [])
    T2 = []
    # factoring twice and factoring a difference
    @T.add("again")
    def _(h):
        a, b = h.q("a", nz=True), F(-3, 2)
        n, m = h.i("n", 0, 2), h.i("m", -2, 2)
        h.seed_models()
        s = a * x ** R(n) * y + b * x ** R(m) * z
        if not isinstance(s, X.Sum): return
        r1 = s.factor()
        r2 = s.factor()
        h.equal(r1, s, "first"); h.equal(r2, s, "second")
        h.true(r1 == r2, "same result twice", lambda: "%s / %s" % (h.show(r1), h.show(r2)))
    return T
