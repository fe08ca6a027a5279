from ..tpl import *
import itertools, random

BOUNDS = ("sums and products of 2-3 operands in every order and grouping, 4-5 operands in listed orders and groupings; operand shapes listed in tpl.MK with "
          "arbitrary rational coefficients, exponents arbitrary rationals or integers -3..3; text compared with every number an opaque token")
NOTE = ("Known findings C04-numeric-radical and C04-minus-one-distributes are excluded by construction: no rational coefficient next to a radical of a "
        "rational that shares its base, and coefficients next to sums are positive.")

def num(e): return type(e).__name__ in ("Rat", "Float", "Infinity", "NegInfinity")

def same_text(h, a, b):
    """printed after everything the comparison had to find out about the numbers is known"""
    if not h.sym: return repr(a) == repr(b)
    from .. import sym as Sy
    for _ in range(6):
        ver = Sy.ENG.version
        x, y = repr(a), repr(b)
        if Sy.ENG.version == ver: return x == y
    raise Sy.Inconclusive("text did not stabilise")

def canon(h, e, label, deep=True):
    """flat, at most one number, no neutral element, no like terms / same bases; rebuilds to itself"""
    X = sp()
    if isinstance(e, (X.Sum, X.Prod)):
        ts = list(e.terms)
        cls = type(e)
        sh = lambda: "%s in %s" % (ts, h.show(e))
        if not h.true(len(ts) >= 2, label + " arity", sh): return
        if not h.true(not any(isinstance(t, cls) for t in ts), label + " flat", sh): return
        ns = [t for t in ts if num(t)]
        if not h.true(len(ns) <= 1, label + " one number", sh): return
        if ns:
            want = ts[0] if cls is X.Prod else ts[-1]
            h.true(want is ns[0], label + " number leads", sh)
            v = ns[0].value
            h.true(bool(v != (1 if cls is X.Prod else 0)), label + " neutral element", sh)
            if cls is X.Prod: h.true(bool(v != 0), label + " zero factor", sh)
        rest = [t for t in ts if not num(t)]
        def key(t):
            if cls is X.Sum:
                return [u for u in t.terms if not num(u)] if isinstance(t, X.Prod) else [t]
            return t.base if isinstance(t, X.Power) else t
        ks = [key(t) for t in rest]
        for i in range(len(ks)):
            for j in range(i):
                if not h.true(not (ks[i] == ks[j]), label + (" like terms" if cls is X.Sum else " same base"), sh): return
        ok, r = h.run(lambda: cls(list(ts)), label + " rebuild")
        if ok: h.true(bool(r == e) and same_text(h, r, e), label + " rebuild", lambda: "%s rebuilt as %s" % (h.show(e), h.show(r)))
    if deep and hasattr(e, "children"):
        for c in e.children(): canon(h, c, label, deep)

def fold(op, xs):
    r = xs[0]
    for y in xs[1:]: r = op(r, y)
    return r
def rfold(op, xs):
    r = xs[-1]
    for y in reversed(xs[:-1]): r = op(y, r)
    return r
def halves(op, xs):
    k = len(xs) // 2
    return op(fold(op, xs[:k]), fold(op, xs[k:])) if k else fold(op, xs)

def _unused_pos(k):
    """operands whose coefficient is positive (next to sums)"""
    return k

PER = {"quick": 25, "thorough": 400}

def templates(tier):
    T = TL()
    X = sp()
    def mk(h, names):
        return [MKX[n](h, str(i)) for i, n in enumerate(names)]
    MKX = dict(MK)
    MKX["pax"] = lambda h, t: h.q("a" + t, pos=True) * S("x")
    MKX["pc"] = lambda h, t: R(h.q("c" + t, pos=True))
    MKX["z"] = lambda h, t: S("z")
    MKX["xm"] = lambda h, t: S("x") ** R(h.i("n" + t, -3, 3))
    MKX["s2"] = lambda h, t: sp().sqrt(2)
    MKX["s3"] = lambda h, t: sp().sqrt(3)
    MKX["pi"] = lambda h, t: sp().pi
    MKX["pin"] = lambda h, t: sp().pi ** R(h.i("n" + t, -3, 3))
    MKX["ee"] = lambda h, t: sp().e ** (S("x") + R(h.q("b" + t)))
    MKX["ex1"] = lambda h, t: sp().e ** S("x")
    MKX["long"] = lambda h, t: S("alpha")
    MKX["sinn"] = lambda h, t: sp().sin(S("x")) ** R(h.i("n" + t, -2, 3))
    MKX["cosl"] = lambda h, t: sp().cos(h.q("a" + t, pos=True) * S("x"))
    MKX["xpy"] = lambda h, t: S("x") + S("y")
    MKX["xpyn"] = lambda h, t: (S("x") + S("y")) ** R(h.i("n" + t, -2, 3))
    MKX["lny"] = lambda h, t: sp().log(S("y"))
    MKX["xy2"] = lambda h, t: h.q("a" + t, pos=True) * (S("x") + S("y"))
    MKX["nfl"] = lambda h, t: sp().Float(-1.5)
    MKX["flx"] = lambda h, t: sp().Float(0.5) * S("x")
    def check(kind, names, orders, groupings, tok):
        op = (lambda a, b: a + b) if kind == "Sum" else (lambda a, b: a * b)
        cls = X.Sum if kind == "Sum" else X.Prod
        def f(h):
            xs = mk(h, names)
            h.seed_models()
            ok, r0 = h.run(lambda: cls(list(xs)), kind)
            if not ok: return
            canon(h, r0, kind, deep=False)
            for o in orders:
                ys = [xs[i] for i in o]
                for nm, g in groupings:
                    ok, r = h.run(lambda: g(op, ys) if g else cls(list(ys)), "%s %s" % (kind, nm))
                    if not ok: return
                    if not h.true(bool(r == r0) and bool(r0 == r), "%s %s %s ==" % (kind, o, nm), lambda: "%s vs %s" % (h.show(r), h.show(r0))): return
                    if not h.true(same_text(h, r, r0), "%s %s %s text" % (kind, o, nm), lambda: "%s vs %s" % (repr(r), repr(r0))): return
        nm = "%s:%s%s" % (kind, "+".join(names), "" if tok == "token" else ":" + tok)
        if any(t["name"] == nm for t in T): return
        T.add(nm, tok=tok)(f)
    G3 = [("list", None), ("left", fold), ("right", rfold)]
    G4 = [("list", None), ("left", fold), ("right", rfold), ("halves", halves)]
    SUMK = ["ax", "ay", "c", "axy", "axn", "asin", "ln", "inv", "sqr", "sinn", "ex", "api", "xn"]
    SUMP = ["xpy", "xy2", "pax", "pc", "xpyn", "fl", "lny"]
    PRODK = ["c", "x", "xm", "y", "sinn", "ex1", "cosl", "lny", "pin", "long"]
    PRODP = ["pc", "xpy", "xpyn", "x", "z", "pi", "fl", "ee"]
    rng = random.Random(4)
    def combos(ks, k): return list(itertools.combinations_with_replacement(ks, k))
    def perms(n): return list(itertools.permutations(range(n)))
    for kind, pools in (("Sum", (SUMK, SUMP)), ("Prod", (PRODK, PRODP))):
        for pi_, pool in enumerate(pools):
            for c in combos(pool, 2):
                check(kind, c, perms(2), [("list", None), ("op", fold)], "token")
            tr = combos(pool, 3)
            if tier == "quick": tr = rng.sample(tr, min(len(tr), 36))
            for c in tr:
                check(kind, c, perms(3), G3, "token")
                if len(set(c)) == 3 and (tier != "quick" or rng.random() < .2): check(kind, c, perms(3), G3, "tokenrev")
            few = [k for k in pool if k not in ("axn", "xn", "xpyn", "sinn")]
            for _ in range(10 if tier == "quick" else 80):
                c = tuple(rng.sample(few if tier == "quick" and len(few) > 4 else pool, 4))
                check(kind, c, rng.sample(perms(4), 6 if tier == "quick" else 12), G4, "token")
            for _ in range(2 if tier == "quick" else 20):
                c = tuple(rng.sample(few if len(few) > 5 else pool, 5))
                check(kind, c, rng.sample(perms(5), 4 if tier == "quick" else 10), G4, "token")
    # operands of equal nesting and power: only the last tie-break decides
    TIE = dict(la=lambda h, t: S("alphabeta"), lb=lambda h, t: S("alphabets"), x=lambda h, t: S("x"), y=lambda h, t: S("y"), x1=lambda h, t: S("x_1"), x10=lambda h, t: S("x_10"),
               ala=lambda h, t: h.q("a" + t, nz=True) * S("alphabeta"), alb=lambda h, t: h.q("a" + t, nz=True) * S("alphabets"),
               sla=lambda h, t: X.sin(S("alphabeta")), slb=lambda h, t: X.sin(S("alphabets")), sx=lambda h, t: X.sin(S("x")), sy=lambda h, t: X.sin(S("y")), cx=lambda h, t: X.cos(S("x")),
               sax=lambda h, t: X.sin(h.q("a" + t, pos=True) * S("x")), say=lambda h, t: X.sin(h.q("a" + t, pos=True) * S("y")), say2=lambda h, t: X.tan(h.q("a" + t, pos=True) * S("y") + 1),
               lx=lambda h, t: X.log(S("alphabeta")), ly=lambda h, t: X.log(S("alphabets")), qx=lambda h, t: X.sqrt(S("alphabeta")), qy=lambda h, t: X.sqrt(S("alphabets")),
               xy=lambda h, t: S("x") ** S("y"), yx=lambda h, t: S("y") ** S("x"), ex=lambda h, t: X.e ** S("x"), two=lambda h, t: R(2) ** S("x"), x2=lambda h, t: S("x") ** 2, y2=lambda h, t: S("y") ** 2,
               ab=lambda h, t: X.Abs(S("x")), aby=lambda h, t: X.Abs(S("y")), sum1=lambda h, t: X.sqrt(S("x") + 1), sum2=lambda h, t: X.sqrt(S("y") + 1), lsum1=lambda h, t: X.cos(S("alphabeta") + S("alphabets") + 1), lsum2=lambda h, t: X.cos(S("alphabeta") + S("alphabets") + 2))
    CON = dict(s1=lambda h, t: X.sin(R(1)), s2=lambda h, t: X.sin(R(2)), s12=lambda h, t: X.sin(R(F(1, 2))), sq=lambda h, t: X.sin(R(h.q("a" + t, pos=True))), l2=lambda h, t: X.log(R(2)), l3=lambda h, t: X.log(R(3)), l10=lambda h, t: X.log(R(10)),
               pi=lambda h, t: X.pi, e=lambda h, t: X.e, q2=lambda h, t: X.sqrt(2), q3=lambda h, t: X.sqrt(3), e2=lambda h, t: X.e ** 2, pi2=lambda h, t: X.pi ** 2, pie=lambda h, t: X.pi ** X.e, lpi=lambda h, t: X.log(X.pi),
               spi=lambda h, t: X.sin(X.pi ** 2), c5=lambda h, t: R(5), q=lambda h, t: R(h.q("c" + t, pos=True)), api=lambda h, t: h.q("a" + t, nz=True) * X.pi, cbrt=lambda h, t: R(2) ** R(F(1, 3)), s1p=lambda h, t: X.sin(R(1)) + X.pi)
    MKX.update(("tie_" + k, v) for k, v in TIE.items())
    MKX.update(("con_" + k, v) for k, v in CON.items())
    rng2 = random.Random(44)
    for kind in ("Sum", "Prod"):
        for pre, D in (("tie_", TIE), ("con_", CON)):
            ks = [pre + k for k in D]
            if kind == "Prod": ks = [k for k in ks if k not in ("tie_ala", "tie_alb", "con_api", "con_s1p", "con_e2")]
            if pre == "con_" and kind == "Prod": ks = [k for k in ks if k not in ("con_c5", "con_q")]
            prs = list(itertools.combinations(ks, 2))
            # one template runs a group of pairs: most are concrete and quick
            base = ks[0]
            for i in range(0, len(ks)):
                grp = [p for p in prs if p[0] == ks[i]]
                if not grp: continue
                def f(h, grp=grp, kind=kind):
                    k = h.choose(len(grp), "pair")
                    xs = mk(h, grp[k])
                    h.seed_models()
                    op = (lambda a, b: a + b) if kind == "Sum" else (lambda a, b: a * b)
                    a, b = xs
                    ok, r0 = h.run(lambda: op(a, b), kind)
                    if not ok: return
                    canon(h, r0, kind, deep=False)
                    ok, r = h.run(lambda: op(b, a), kind)
                    if ok and h.true(bool(r == r0), kind + " ==", lambda: "%s vs %s" % (h.show(r), h.show(r0))):
                        h.true(same_text(h, r, r0), kind + " text", lambda: "%s vs %s" % (h.show(r), h.show(r0)))
                T.add("ties:%s:%s" % (kind, ks[i]), tok="token")(f)
            for _ in range(12 if tier == "quick" else 150):
                check(kind, tuple(rng2.sample(ks, 3)), perms(3), G3, "token")
    def radical(h):
        h.known("C04-numeric-radical")
        a = h.i("a", 2, 6)
        h.seed_models()
        r, s = R(a), sp().sqrt(2)
        h.true(X.Prod([R(3), r, s]) == (R(3) * r) * s, "radical coefficient")
    T.add("known:radical", tok="token")(radical)
    def minus(h):
        h.known("C04-minus-one-distributes")
        a = h.q("a", nz=True)
        h.seed_models()
        s, z = S("x") + R(a), S("z")
        h.true(X.Prod([R(-1), s, z]) == (R(-1) * s) * z, "minus one")
    T.add("known:minus", tok="token")(minus)
    # results of other constructions are canonical all the way down
    def can(nm, mkexpr):
        def f(h):
            ok, e = h.run(lambda: mkexpr(h))
            if ok: canon(h, e, nm)
        T.add("canon:" + nm, tok="token")(f)
    x, y, z = (lambda: S("x")), (lambda: S("y")), (lambda: S("z"))
    can("cancel sum", lambda h: h.q("a") * (x() + y()) + h.q("b") * (x() + y()))
    can("sub itself", lambda h: (h.q("a") * x() + y()) - (h.q("b") * x() + y()))
    can("power merge", lambda h: x() ** R(h.q("n")) * (x() * y()) ** R(h.q("m")))
    can("expand 3", lambda h: ((x() + R(h.q("a", nz=True))) ** 3).expand())
    can("expand prod", lambda h: ((x() + R(h.q("a", nz=True))) * (y() + R(h.q("b", nz=True)))).expand())
    can("expand den", lambda h: ((x() + R(h.q("a", nz=True))) * (x() + 2) / x()).expand())
    can("neg sum", lambda h: -(h.q("a") * x() + h.q("b") * y()))
    can("quotient", lambda h: (h.q("a") * x() + 1) / (h.q("b", nz=True) * x()))
    can("subs", lambda h: (h.q("a") * x() * y() + x() + 1).subs({"x": R(h.q("b")) * y(), "y": z()}))
    can("diff", lambda h: (x() ** R(h.i("n", -3, 3)) * sp().sin(h.q("a", nz=True) * x())).diff(x()))
    can("exp merge", lambda h: sp().e ** (h.q("a") * x()) * sp().e ** (h.q("b") * x() + 1))
    can("sqrt merge", lambda h: sp().sqrt(x()) * sp().sqrt(h.q("b", pos=True) * x()) * x() ** R(h.i("n", -2, 2)))
    can("neg sqrt", lambda h: sp().sqrt(-x()) * sp().sqrt(-x()) * R(h.q("a")))
    can("inner sums", lambda h: sp().sin(x() + h.q("a") * x() + 1) + sp().sin((h.q("a") + 1) * x() + 1))
    return T
