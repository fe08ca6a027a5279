from ..tpl import *

BOUNDS = ("base shapes and exponent shapes listed in the templates; exponents: any rational where symbolic, or any integer in [-4,4]; "
          "numeric roots p/q with q<=4 of any integer/rational base (and listed big integers); nesting depth 3")

def bases():
    B = {}
    B["c"] = lambda h: R(h.q("a"))
    B["x"] = lambda h: S("x")
    B["negx"] = lambda h: -S("x")
    B["ax"] = lambda h: h.q("a", nz=True) * S("x")
    B["axy"] = lambda h: h.q("a", nz=True) * S("x") * S("y")
    B["x2y"] = lambda h: S("x") ** 2 * S("y")
    B["xny"] = lambda h: S("x") ** R(h.i("k", -3, 3, nz=True)) / S("y")
    B["xn"] = lambda h: S("x") ** R(h.q("k", nz=True))
    B["lin"] = lambda h: h.q("a", nz=True) * S("x") + S("y")
    B["neglin"] = lambda h: -S("x") - S("y")
    B["lin2"] = lambda h: (S("x") + R(h.q("a", nz=True))) ** R(h.i("k", -3, 3, nz=True))
    B["pi"] = lambda h: sp().pi
    B["api"] = lambda h: h.q("a", nz=True) * sp().pi
    B["e"] = lambda h: sp().e
    B["eax"] = lambda h: sp().e ** (h.q("a", nz=True) * S("x"))
    B["sqrtx"] = lambda h: sp().sqrt(S("x"))
    B["r3"] = lambda h: h.q("a", nz=True) * sp().sqrt(3)
    B["abs"] = lambda h: sp().Abs(S("x"))
    B["sinx"] = lambda h: sp().sin(S("x"))
    B["ay"] = lambda h: R(h.q("a", pos=True)) ** S("y")
    B["fl"] = lambda h: sp().Float(0.25)
    return B
def exps():
    E = {}
    E["n"] = lambda h: R(h.i("n", -4, 4))
    E["q"] = lambda h: R(h.q("q"))
    for p, q in [(1, 2), (-1, 2), (3, 2), (1, 3), (2, 3), (-2, 3), (-3, 4), (5, 2)]:
        E["%d/%d" % (p, q)] = lambda h, p=p, q=q: R(F(p, q))
    E["z"] = lambda h: S("z")
    E["az"] = lambda h: h.q("q", nz=True) * S("z")
    E["z+1"] = lambda h: S("z") + 1
    E["lnx"] = lambda h: sp().log(S("x"))
    E["alnx"] = lambda h: h.q("q", nz=True) * sp().log(S("x"))
    E["zlnx"] = lambda h: S("z") * sp().log(S("x"))
    E["r2"] = lambda h: sp().sqrt(2)
    return E

def mark_even_root(h, b, x):
    """known finding: an even power under a negative odd root loses its absolute value"""
    if type(x).__name__ != "Rat": return
    for t in (b.terms if type(b).__name__ == "Prod" else [b]):
        if type(t).__name__ == "Power" and type(t.exponent).__name__ == "Rat":
            x1, x2 = t.exponent.value, x.value
            if x2 < 0 and x1 % 2 == 0 and (x1 * x2) % 2 == 1 and x1 * x2 != 1:
                h.known("C02-negative-root-of-even-power")

def templates(tier):
    T = TL()
    Bs, Es = bases(), exps()
    for bn, bf in Bs.items():
        for en, ef in Es.items():
            if bn == "fl" and en not in ("n", "z", "1/2"): continue
            def f(h, bf=bf, ef=ef, bn=bn, en=en):
                b, x = bf(h), ef(h)
                h.seed_models()
                if type(b).__name__ == "Rat" and b.value == 0 and not (type(x).__name__ == "Rat" and x.value > 0): return
                if bn == "c" and type(b).__name__ == "Rat" and b.value < 0 and type(x).__name__ == "Rat" and not h.is_int(x.value):
                    n, d = x.value.numerator, x.value.denominator
                    if d % 2 == 1 and n % 2 == 0: h.known("C02-even-numerator-odd-root")
                mark_even_root(h, b, x)
                ok, r = h.run(lambda: b ** x)
                if ok: h.equal(r, ("^", b, x), "%s**%s" % (bn, en))
            if not (bn == "negx" and en in ("lnx", "zlnx", "alnx")): T.add("pow:%s^%s" % (bn, en))(f)

    @T.add("nested-rat-rat")
    def _(h):
        n, m = h.q("n"), h.q("m")
        h.seed_models()
        x = S("x")
        ok, i = h.run(lambda: x ** R(n))
        if not ok: return
        mark_even_root(h, i, R(m))
        ok, r = h.run(lambda: i ** R(m))
        if ok: h.equal(r, ("^", i, m))
    @T.add("nested-int-rat")
    def _(h):
        n, m = h.i("n", -6, 6), h.q("m")
        h.seed_models()
        x = S("x")
        i = x ** n
        mark_even_root(h, i, R(m))
        ok, r = h.run(lambda: i ** R(m))
        if ok: h.equal(r, ("^", ("^", x, n), m))
    @T.add("nested-int-half")
    def _(h):
        n, m = h.i("n", -6, 6), h.i("m", -5, 5)
        h.seed_models()
        x = S("x")
        i = (x + S("y")) ** n
        mark_even_root(h, i, R(F(1, 2) * m))
        ok, r = h.run(lambda: i ** R(F(1, 2) * m))
        if ok: h.equal(r, ("^", ("^", ("+", x, S("y")), n), F(1, 2) * m))
    @T.add("nested3")
    def _(h):
        n, m = h.i("n", -4, 4), h.i("m", -3, 3)
        h.seed_models()
        x = S("x")
        ok, r = h.run(lambda: ((x ** n) ** R(F(1, 2))) ** m)
        if ok: h.equal(r, ("^", ("^", ("^", x, n), F(1, 2)), m))
    @T.add("nested-symbolic-exponents")
    def _(h):
        a, b = h.q("a", nz=True), h.q("b", nz=True)
        h.seed_models()
        x, y, z = S("x"), S("y"), S("z")
        ok, r = h.run(lambda: (x ** (a * y)) ** (b * z))
        if ok: h.equal(r, ("^", ("^", x, ("*", a, y)), ("*", b, z)))
    for q in (2, 3, 4):
        for p in (1, -1, 2, 3, -5):
            if F(p, q).denominator != q: continue
            for kind in ("a", "1/b", "a/3"):
                def f(h, p=p, q=q, kind=kind):
                    a = h.i("a", 0 if kind[0] == "a" else 1)
                    h.seed_models()
                    if p < 0 and kind[0] == "a" and a == 0: return
                    base = a if kind == "a" else F(1) / a if kind == "1/b" else a / F(3)
                    ok, r = h.run(lambda: R(base) ** F(p, q))
                    if ok: h.equal(r, ("^", R(base), F(p, q)))
                T.add("root:(%s)^(%d/%d)" % (kind, p, q))(f)
            def g(h, p=p, q=q):
                a = h.i("a", None, -1)
                h.seed_models()
                if q % 2 == 1 and p % 2 == 0: h.known("C02-even-numerator-odd-root")
                ok, r = h.run(lambda: R(a) ** F(p, q))
                if ok: h.equal(r, ("^", a, F(p, q)))
                if q % 2 == 0 and p == 1:
                    ok, r = h.run(lambda: (R(a) ** F(p, q)) ** 2)
            if q % 2: T.add("root:neg^(%d/%d)" % (p, q))(g)
    for v in (10 ** 33, 10 ** 40 + 1, 2 ** 1100, 3 ** 700, (10 ** 20 + 39) ** 2, (10 ** 20 + 39) ** 2 + 1, 10 ** 15 + 1, 7 ** 3 * 10 ** 30):
        def f(h, v=v):
            s = h.choose(3, "form")
            b = [F(v), F(1, v), F(v, 3)][s]
            for x in (F(1, 2), F(1, 3), F(-1, 2), F(3, 2)):
                ok, r = h.run(lambda: R(b) ** x, "big root")
                if ok: h.equal(r, ("^", b, x), "big root")
        T.add("root:big:%d" % (v % 99991))(f)
    @T.add("sqrt-fn")
    def _(h):
        a, b = h.q("a", pos=True), h.q("b", pos=True)
        h.seed_models()
        x = S("x")
        for nm, e in [("sqrt(a*x^2)", a * x ** 2), ("sqrt(a)", R(a)), ("sqrt(ab x)", a * b * x), ("sqrt(x^4)", x ** 4), ("sqrt((x+a)^2)", (x + R(a)) ** 2)]:
            ok, r = h.run(lambda: sp().sqrt(e))
            if ok: h.equal(r, ("^", e, F(1, 2)), nm)
    @T.add("sqrt-times")
    def _(h):
        a, b = h.i("a", 1), h.i("b", 1)
        h.seed_models()
        ok, r = h.run(lambda: sp().sqrt(R(a)) * sp().sqrt(R(b)) / sp().sqrt(R(a)))
        if ok: h.equal(r, ("^", b, F(1, 2)))
    @T.add("num-base-num-exps")
    def _(h):
        n, m = h.q("n"), h.q("m")
        h.seed_models()
        ok, r = h.run(lambda: (R(2) ** R(n)) * (R(2) ** R(m)) / R(6) ** R(n))
        if ok: h.equal(r, ("/", ("*", ("^", 2, n), ("^", 2, m)), ("^", 6, n)))
    @T.add("num-frac-base")
    def _(h):
        n = h.q("n")
        h.seed_models()
        for b in (F(1, 2), F(4, 9), F(2, 3), F(8, 3), F(9), F(5, 4)):
            ok, r = h.run(lambda: R(b) ** R(n))
            if ok: h.equal(r, ("^", b, n), "%s^n" % b)
    @T.add("e-log-general")
    def _(h):
        a, b = h.q("a", nz=True), h.q("b", nz=True)
        h.seed_models()
        x, y, e, log = S("x"), S("y"), sp().e, sp().log
        for nm, f, ref in [("e^(a ln x)", lambda: e ** (a * log(x)), ("^", x, a)),
                           ("e^(a y ln(x+b))", lambda: e ** (a * y * log(x + R(b))), ("^", ("+", x, b), ("*", a, y))),
                           ("2^(a log2 x)", lambda: 2 ** (a * log(x, 2)), ("^", x, a)),
                           ("e^(a log2 x)", lambda: e ** (a * log(x, 2)), ("^", ("e",), ("*", a, ("log", x, 2)))),
                           ("x^(log y/log x)", lambda: x ** (a * log(y, x)), ("^", ("^", x, ("log", y, x)), a)),
                           ("e^(ln x + a)", lambda: e ** (log(x) + a), ("*", x, ("^", ("e",), a)))]:
            ok, r = h.run(f)
            if ok: h.equal(r, ref, nm)
    FAC = {"y": lambda h: S("y"), "sin": lambda h: sp().sin(S("y") ** 2 + 1), "sum": lambda h: S("y") + R(h.q("c", nz=True)), "ay": lambda h: h.q("c", nz=True) * S("y"), "ln": lambda h: sp().log(sp().log(S("y") + 3)), "inv": lambda h: 1 / S("y"),
           "sqrt": lambda h: sp().sqrt(S("y")), "pi": lambda h: sp().pi, "two": lambda h: S("y") * sp().cos(S("z")), "2^y": lambda h: R(2) ** S("y"), "lnx": lambda h: sp().log(S("x")), "ln2": lambda h: sp().log(R(2)), "none": lambda h: R(1)}
    for k in FAC:
        for nm, base in (("e", None), ("2", 2), ("y", "y"), ("x+1", "s")):
            def f(h, k=k, base=base):
                X = sp()
                v, u = FAC[k](h), S("x") + R(h.q("b", pos=True))
                h.seed_models()
                b = X.e if base is None else R(2) if base == 2 else S("y") if base == "y" else S("x") + 1
                for w in (S("x"), u):
                    p = v * X.log(w, b)
                    ok, r = h.run(lambda: b ** p)
                    if ok: h.equal(r, ("^", w, v), "b^(v log_b u)")
                    ok, r = h.run(lambda: b ** (-p / 2))
                    if ok: h.equal(r, ("^", w, ("*", F(-1, 2), v)), "b^(-v/2 log_b u)")
            T.add("explog:%s^(log*%s)" % (nm, k))(f)
    @T.add("prod-base")
    def _(h):
        a = h.q("a", nz=True)
        n, k = h.i("n", -3, 3), h.q("k")
        h.seed_models()
        x, y = S("x"), S("y")
        b = a * x ** n * y
        if type(b).__name__ != "Prod": return
        mark_even_root(h, b, R(k))
        ok, r = h.run(lambda: b ** R(k))
        if ok: h.equal(r, ("^", ("*", a, ("^", x, n), y), k))
    @T.add("neg-bases")
    def _(h):
        a = h.q("a", pos=True)
        n = h.i("n", -5, 5)
        h.seed_models()
        x, y = S("x"), S("y")
        for nm, b in [("-x", -x), ("-a x y", -a * x * y), ("-x-y", -x - y), ("x-y", x - y), ("-pi", -sp().pi), ("-sin", -sp().sin(x))]:
            ok, r = h.run(lambda: b ** n)
            if ok: h.equal(r, ("^", b, n), nm)
    @T.add("neg-bases-rational")
    def _(h):
        a = h.q("a", pos=True)
        n = h.q("n")
        h.seed_models()
        x, y = S("x"), S("y")
        for nm, b in [("-x", -x), ("-a x y", -a * x * y), ("-x-y", -x - y)]:
            ok, r = h.run(lambda: b ** R(n))
            if ok: h.equal(r, ("^", b, n), nm)
    return T
