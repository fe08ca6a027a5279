from ..tpl import *
import itertools, random, warnings

BOUNDS = ("patterns with up to three terms or factors and up to two wildcards (those of the simplifier and variations: trigonometric functions, powers, products, sums, logarithms, quotients) against expressions built from them with wildcard values x, y, numbers, "
          "products, sums and functions, arbitrary rational coefficients, up to two extra terms, deliberately disagreeing coefficients or wildcard values, and against the shapes of the other patterns; exact, up to a factor, up to a sum, and both")

PER = {"quick": 8, "thorough": 200}

def build(t):
    """pattern tuple -> simpy expression with Any_ leaves"""
    X = sp()
    from simpy.regex import Any_
    if isinstance(t, X.Expr): return t
    if not isinstance(t, tuple): return R(t)
    k = t[0]
    if k == "any": return Any_(t[1])
    if k == "e": return X.e
    a = [build(s) for s in t[1:]]
    if k == "+": return X.Sum(a) if len(a) > 2 else a[0] + a[1]
    if k == "*": return X.Prod(a) if len(a) > 2 else a[0] * a[1]
    if k == "/": return a[0] / a[1]
    if k == "^": return a[0] ** a[1]
    if k == "log": return X.log(*a)
    if k == "abs": return X.Abs(a[0])
    return getattr(X, k)(a[0])

def fill(t, m):
    """pattern tuple with wildcards replaced -> reference tuple"""
    if not isinstance(t, tuple): return t
    if t[0] == "any": return m[t[1]]
    return (t[0],) + tuple(fill(s, m) for s in t[1:])

def anys(t):
    if not isinstance(t, tuple): return set()
    if t[0] == "any": return {t[1]}
    return set().union(set(), *[anys(s) for s in t[1:]])

def templates(tier):
    warnings.simplefilter("ignore")
    T = TL()
    X = sp()
    from simpy import regex as RX
    qk = tier == "quick"
    rng = random.Random(16)
    x, y, z, t_ = S("x"), S("y"), S("z"), S("t")
    W, V = ("any", "w"), ("any", "v")
    sq = lambda f, w=W: ("^", (f, w), 2)
    P = {
        "1+tan2": ("+", 1, sq("tan")), "1-sin2": ("+", 1, ("*", -1, sq("sin"))), "-1+sec2": ("+", -1, sq("sec")), "1+cot2": ("+", 1, sq("cot")), "sin sec": ("*", ("sin", W), ("sec", W)), "cos csc": ("*", ("cos", W), ("csc", W)), "sin2+cos2": ("+", sq("sin"), sq("cos")),
        "-1+csc2": ("+", -1, sq("csc")), "sec2-tan2": ("+", sq("sec"), ("*", -1, sq("tan"))), "sinv cosw": ("*", ("sin", V), ("cos", W)), "sinv+sinw": ("+", ("sin", V), ("sin", W)), "sinw+x": ("+", ("sin", W), x), "sin": ("sin", W), "tan2": sq("tan"), "w^2": ("^", W, 2), "2w": ("*", 2, W), "xw": ("*", x, W), "1/w": ("/", 1, W), "x^w": ("^", x, W), "e^w": ("^", ("e",), W), "w^v": ("^", W, V), "ln": ("log", W), "log2": ("log", W, 2),
        "log v": ("log", W, V), "w sin": ("*", W, ("sin", W)), "v sin": ("*", V, ("sin", W)), "w sinx": ("*", W, ("sin", x)), "w+1": ("+", W, 1), "w+x": ("+", W, x), "w+v": ("+", W, V), "sqrt": ("sqrt", W), "abs": ("abs", W), "sin cos y": ("*", y, ("sin", W), ("cos", W)), "2sin2+sin": ("+", ("*", 2, sq("sin")), ("sin", W)), "3tan": ("*", 3, ("tan", W)), "w2+w": ("+", ("^", W, 2), W), "sin3": ("+", ("sin", W), ("cos", W), ("tan", W)), "sin/cos": ("/", ("sin", W), ("cos", W)), "1/cos2": ("^", ("cos", W), -2), "ln+ln": ("+", ("log", W), ("log", V)), "w/(w+1)": ("/", W, ("+", W, 1)), "e^w sin": ("*", ("^", ("e",), W), ("sin", W)), "x+1": ("+", x, 1), "x": x, "nest": ("sin", ("+", ("cos", W), W)), "asin": ("asin", W), "sin2w": ("sin", ("*", 2, W)), "nested sin": ("sin", ("^", W, 2)),
    }
    VAL = {
        "x": lambda h, n: x, "y": lambda h, n: y, "2x": lambda h, n: 2 * x, "ax": lambda h, n: h.q(n, nz=True) * x, "x+y": lambda h, n: x + y, "x+a": lambda h, n: x + R(h.q(n, nz=True)), "num": lambda h, n: R(h.q(n, pos=True)), "x2": lambda h, n: x ** 2, "xy": lambda h, n: x * y * h.q(n, nz=True), "ln": lambda h, n: X.log(x), "tw": lambda h, n: t_ * y,
    }
    MODES = {"exact": {}, "factor": dict(up_to_factor=True), "sum": dict(up_to_sum=True), "both": dict(up_to_factor=True, up_to_sum=True)}
    def go(pn, mode, nm, mk, flip=False):
        def f(h):
            e = mk(h)
            q = build(P[pn])
            h.seed_models()
            kw = MODES[mode]
            args = (q, e) if flip else (e, q)
            ok, r = h.run(lambda: RX.eq(*args, **kw), "eq", allow=(NotImplementedError, ValueError))
            if not ok: return
            if not h.true(isinstance(r, dict) and "success" in r, "a result", lambda: repr(r)): return
            if not r["success"]:
                h.true(True, "no match")
                return
            m = r.get("matches")
            ks = anys(P[pn])
            if not isinstance(m, dict):
                if not h.true(len(ks) == 1, "one match reported for several wildcards", lambda: repr(ks)): return
                m = {list(ks)[0]: m}
            if not h.true(ks <= set(m), "a wildcard has no value", lambda: "%s of %s" % (sorted(m), sorted(ks))): return
            if not h.true(all(isinstance(v, X.Expr) for v in m.values()), "values are expressions", lambda: repr(m)): return
            ref = fill(P[pn], m)
            if "up_to_factor" in kw:
                if not h.true("factor" in r, "factor reported"): return
                if pn in ("3tan", "2sin2+sin"): h.known("C16-coefficient-in-pattern")
                ref = ("*", r["factor"], ref)
            if "up_to_sum" in kw:
                if not h.true("rest" in r, "rest reported"): return
                ref = ("+", ref, r["rest"])
            h.equal(e, ref, "match", strict=False)
        T.add("%s:%s:%s" % (mode, pn, nm), **(dict(tok="token") if nm == "disagree" else {}))(f)
    def inst(h, t, vals):
        """an expression of the pattern's shape with wildcard values vals[key]"""
        return build(fill(t, vals))
    RESTS = {"": lambda h: None, "z": lambda h: z, "c": lambda h: R(h.q("c")), "sin2y": lambda h: h.q("c", nz=True) * X.sin(y) ** 2, "z+c": lambda h: z + R(h.q("c")), "same": lambda h: "same"}
    for pn, p in P.items():
        ks = sorted(anys(p))
        for mode in (MODES if isinstance(p, tuple) and p[0] == "+" else ("exact", "factor")):
            vcs = list(itertools.product(VAL, repeat=len(ks))) or [()]
            rng.shuffle(vcs)
            for vc in vcs[:(3 if qk else 11)]:
                for fac in (("1", "a") if mode in ("factor", "both") else ("1", "a")[:1 if rng.random() < .7 else 2]):
                    rs = [""] if mode in ("exact", "factor") else rng.sample(list(RESTS), 2 if qk else 6)
                    for r in rs:
                        if qk and rng.random() < .25 and pn not in list(P)[:8]: continue
                        def mk(h, p=p, ks=ks, vc=vc, fac=fac, r=r):
                            e = inst(h, p, {k: VAL[v](h, "m" + k) for k, v in zip(ks, vc)})
                            if fac == "a": e = h.q("a", nz=True) * e
                            if e.expandable() and isinstance(e, X.Prod): e = e.expand()
                            rr = RESTS[r](h)
                            if rr is None: return e
                            if isinstance(rr, str): return e + inst(h, p, {k: z for k in ks})
                            return e + rr
                        go(pn, mode, "%s*%s+%s" % ("|".join(vc), fac, r), mk)
        # the same pattern, but the wildcard stands for different things / coefficients disagree
        if isinstance(p, tuple) and p[0] in "+*":
            for mode in (MODES if p[0] == "+" else ("exact", "factor")):
                if qk and mode in ("exact", "sum") and rng.random() < .4: continue
                def mk(h, p=p, ks=ks):
                    parts = [inst(h, s, {k: h.q("w%d" % i, nz=True) * x for k in ks}) if isinstance(s, tuple) else inst(h, s, {}) for i, s in enumerate(p[1:])]
                    cs = [h.q("d%d" % i, nz=True) for i in range(len(parts))]
                    return X.Sum([c * t for c, t in zip(cs, parts)]) if p[0] == "+" else X.Prod([parts[0] ** R(h.i("n", 1, 2))] + parts[1:] + [R(cs[0])])
                go(pn, mode, "disagree", mk)
                def mk2(h, p=p, ks=ks):
                    parts = [inst(h, s, {k: (x, y)[i % 2] for k in ks}) for i, s in enumerate(p[1:])]
                    return X.Sum([h.q("d%d" % i, nz=True) * t for i, t in enumerate(parts)] + [parts[-1] * z]) if p[0] == "+" else X.Prod(parts + [z])
                go(pn, mode, "other", mk2)
    # every pattern against the shapes of the others
    prs = list(itertools.permutations(P, 2))
    for a, b in (rng.sample(prs, 140) if qk else rng.sample(prs, 900)):
        mode = rng.choice(list(MODES) if isinstance(P[a], tuple) and P[a][0] == "+" and isinstance(P[b], tuple) and P[b][0] == "+" else ["exact", "factor"])
        def mk(h, b=b):
            e = inst(h, P[b], {k: (h.q("a", nz=True) * x if k == "w" else y) for k in anys(P[b])})
            return e + h.q("c") * X.sin(x) ** 2 if rng_flag(b) else e * h.q("c", nz=True)
        go(a, mode, "vs " + b, mk, flip=rng.random() < .2)
    return T

def rng_flag(s):
    return sum(map(ord, s)) % 2 == 0
