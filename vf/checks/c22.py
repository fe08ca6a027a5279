from ..tpl import *
import itertools, warnings

BOUNDS = ("inf and -inf combined with an arbitrary rational (sums, products, quotients, all comparisons: no bound on its size), with the listed finite constants times or plus an arbitrary rational, "
          "with decimals, and with each other, two or three operands in every order; exponents and bases of powers: arbitrary rationals of magnitude between 2**-900 and 2**900")
NOTE = "Python's conversion of a rational to a double (overflow above 2**1024, underflow below 2**-1076) is part of the model of rational-with-infinity arithmetic."

PER = {"quick": 40, "thorough": 300}

class Und(Exception): pass

def sgnq(v):
    return 0 if v == 0 else (1 if v > 0 else -1)

def ext(e):
    """extended value of a symbol-free expression: (infinite?, sign)"""
    X = sp()
    n = type(e).__name__
    if n == "Infinity": return True, 1
    if n == "NegInfinity": return True, -1
    if isinstance(e, X.Num):
        v = e.value
        if type(v) is float:
            if v != v: raise Und()
            if v in (float("inf"), float("-inf")): return True, 1 if v > 0 else -1
        return False, sgnq(v)
    if n == "Sum":
        infs = set()
        for t in e.terms:
            i, s = ext(t)
            if i: infs.add(s)
        if len(infs) > 1: raise Und()
        if infs: return True, infs.pop()
        return False, None
    if n == "Prod":
        sg, inf_ = 1, False
        for t in e.terms:
            i, s = ext(t)
            inf_ |= i
            if s is None: raise Und()
            sg *= s
        if inf_ and sg == 0: raise Und()
        return inf_, sg
    if n == "Power":
        (bi, bs), (xi, xs) = ext(e.base), ext(e.exponent)
        if not bi and not xi and bs == 1: return False, 1
        raise Und()
    raise Und()

def templates(tier):
    warnings.simplefilter("ignore")
    T = TL()
    X = sp()
    inf, ninf = X.inf, X.NegInfinity()
    I = {"inf": (inf, 1), "-inf": (ninf, -1)}
    def val(h, r, want, label, extra=""):
        """the result is the infinity of that sign, or 0"""
        if not h.true(isinstance(r, X.Expr), label, lambda: repr(r)): return
        try: g = ext(r)
        except Und: g = None
        if want == 0: h.true(g is not None and g[0] is False and g[1] == 0, label, lambda: "%s%s, expected 0" % (h.show(r), extra))
        else: h.true(g == (True, want), label, lambda: "%s%s, expected %sinf" % (h.show(r), extra, "-" if want < 0 else ""))
    FIN = {
        "q": lambda h, t="": R(h.q("q" + t)), "pi": lambda h, t="": X.pi, "e": lambda h, t="": X.e, "fl": lambda h, t="": X.Float(2.5), "-fl": lambda h, t="": X.Float(-0.25), "qpi": lambda h, t="": X.pi * R(h.q("q" + t, nz=True)),
        "sqrt2": lambda h, t="": X.sqrt(2) * R(h.q("q" + t, nz=True)), "pi+q": lambda h, t="": X.pi + R(h.q("q" + t)), "qe": lambda h, t="": X.e * R(h.q("q" + t, nz=True)), "e2": lambda h, t="": X.e ** 2,
    }
    SG = ("q", "pi", "e", "fl", "-fl", "qpi", "sqrt2", "qe", "e2")
    def sign(h, f):
        r = ext(f)[1]
        return r
    for f, i in itertools.product(FIN, I):
        @T.add("sum:%s:%s" % (f, i))
        def _(h, f=f, i=i):
            a = FIN[f](h)
            h.seed_models()
            w, s = I[i]
            for nm, op, want in (("a+i", lambda: a + w, s), ("i+a", lambda: w + a, s), ("i-a", lambda: w - a, s), ("a-i", lambda: a - w, -s), ("Sum", lambda: X.Sum([a, w, a]), s)):
                ok, r = h.run(op, nm)
                if ok: val(h, r, want, nm, " from %s" % h.show(a))
    for f, i in itertools.product(SG, I):
        @T.add("prod:%s:%s" % (f, i))
        def _(h, f=f, i=i):
            a = FIN[f](h)
            w, s = I[i]
            h.seed_models()
            g = sign(h, a)
            if g == 0: h.assume(False)
            for nm, op, want in (("a*i", lambda: a * w, s * g), ("i*a", lambda: w * a, s * g), ("-(i)*a", lambda: (-w) * a, -s * g), ("i/a", lambda: w / a, s * g), ("Prod", lambda: X.Prod([a, w, a]), s), ("neg", lambda: -(a * w), -s * g)):
                ok, r = h.run(op, nm)
                if ok: val(h, r, want, nm, " from %s" % h.show(a))
        @T.add("over:%s:%s" % (f, i))
        def _(h, f=f, i=i):
            a = FIN[f](h)
            w, s = I[i]
            if f[0] == "q" and f == "q": h.assume(a.value < 2 ** 900); h.assume(a.value > -2 ** 900)
            h.seed_models()
            ok, r = h.run(lambda: a / w, "a/i")
            if ok: val(h, r, 0, "a/i", " from %s" % h.show(a))
    NUM = {"q": FIN["q"], "pi": FIN["pi"], "e": FIN["e"], "fl": FIN["fl"], "-fl": FIN["-fl"], "huge": lambda h: R(10 ** 400), "-huge": lambda h: R(-10 ** 400)}
    for f in NUM:
        @T.add("cmp:%s" % f)
        def _(h, f=f):
            a = NUM[f](h)
            h.seed_models()
            for nm, c, want in (("a<inf", lambda: a < inf, 1), ("a<=inf", lambda: a <= inf, 1), ("a>inf", lambda: a > inf, 0), ("a>=inf", lambda: a >= inf, 0), ("a==inf", lambda: a == inf, 0), ("a!=inf", lambda: a != inf, 1), ("inf>a", lambda: inf > a, 1), ("inf>=a", lambda: inf >= a, 1), ("inf<a", lambda: inf < a, 0), ("inf<=a", lambda: inf <= a, 0), ("inf==a", lambda: inf == a, 0),
                                ("a>-inf", lambda: a > ninf, 1), ("a>=-inf", lambda: a >= ninf, 1), ("a<-inf", lambda: a < ninf, 0), ("a<=-inf", lambda: a <= ninf, 0), ("a==-inf", lambda: a == ninf, 0), ("-inf<a", lambda: ninf < a, 1), ("-inf<=a", lambda: ninf <= a, 1), ("-inf>a", lambda: ninf > a, 0), ("-inf>=a", lambda: ninf >= a, 0), ("-inf==a", lambda: ninf == a, 0)):
                ok, r = h.run(c, nm)
                if ok: h.true(bool(r) == bool(want), nm, lambda: h.show(a))
    @T.add("two")
    def _(h):
        a, b = I[("inf", "-inf")[h.choose(2, "a")]], I[("inf", "-inf")[h.choose(2, "b")]]
        s = a[1]
        val(h, -a[0], -s, "neg")
        val(h, -(-a[0]), s, "neg neg")
        val(h, abs(a[0]), 1, "abs"); val(h, X.Abs(a[0]), 1, "Abs")
        val(h, a[0] * b[0], s * b[1], "i*i")
        val(h, X.Prod([a[0], b[0], a[0]]), b[1], "i*i*i")
        if s == b[1]: val(h, a[0] + b[0], s, "i+i")
        else: val(h, a[0] - b[0], s, "i-i")
        h.true((a[0] == b[0]) == (s == b[1]), "=="); h.true((a[0] < b[0]) == (s < b[1]), "<"); h.true((a[0] <= b[0]) == (s <= b[1]), "<="); h.true((a[0] > b[0]) == (s > b[1]), ">"); h.true((a[0] >= b[0]) == (s >= b[1]), ">="); h.true((a[0] != b[0]) == (s != b[1]), "!=")
        h.true(a[0].sign == s, "sign"); h.true(not a[0].is_int, "is_int"); h.true(a[0].is_subtraction == (s < 0), "is_subtraction")
        val(h, a[0].reciprocal(), 0, "reciprocal"); val(h, 1 / a[0], 0, "1/i")
        val(h, a[0].evalf(), s, "evalf"); val(h, a[0].subs({"x": R(1)}), s, "subs"); val(h, a[0].diff(S("x")), 0, "diff of a constant")
        h.true(a[0].symbols() == [] and not a[0].contains(S("x")), "no symbols")
        h.true(repr(a[0]) == ("inf" if s > 0 else "-inf"), "repr")
    # powers
    lim = lambda h, v: (h.assume(v < 2 ** 900), h.assume(v > -2 ** 900))
    @T.add("inf^q")
    def _(h):
        x = h.q("x")
        lim(h, x)
        h.seed_models()
        g = sgnq(x)
        if g == 0: h.assume(False)
        ok, r = h.run(lambda: inf ** R(x), "inf^q")
        if ok: val(h, r, 1 if g > 0 else 0, "inf^q", " for exponent %s" % h.show(R(x)))
    @T.add("sqrt")
    def _(h):
        val(h, X.sqrt(inf), 1, "sqrt(inf)")
        val(h, inf ** 3 + 1, 1, "inf^3+1")
    @T.add("-inf^n")
    def _(h):
        n = h.i("n", -8, 8, nz=True)
        h.seed_models()
        ok, r = h.run(lambda: ninf ** R(n), "(-inf)^n")
        even = n % 2 == 0
        if ok: val(h, r, 0 if n < 0 else (1 if even else -1), "(-inf)^n", " for exponent %s" % h.show(R(n)))
    @T.add("q^inf")
    def _(h):
        b = h.q("b", pos=True)
        lim(h, b)
        h.seed_models()
        h.assume(b != 1)
        big = b > 1
        for w, s in (inf, 1), (ninf, -1):
            ok, r = h.run(lambda: R(b) ** w, "q^i")
            if ok: val(h, r, 1 if big == (s > 0) else 0, "q^%sinf" % ("-" if s < 0 else ""), " for base %s" % h.show(R(b)))
    for nm in ("e", "pi"):
        @T.add("%s^inf" % nm)
        def _(h, nm=nm):
            c = getattr(X, nm)
            q = R(h.q("q", nz=True))
            h.seed_models()
            g = sgnq(q.value)
            for w, s in (inf, 1), (ninf, -1):
                for lab, mk in (("c^i", lambda: c ** w), ("c^(q i) over |sign|", lambda: c ** (q * w))):
                    want = s if lab == "c^i" else s * g
                    ok, r = h.run(mk, lab)
                    if ok: val(h, r, 1 if want > 0 else 0, lab, " %s %s" % (nm, h.show(q)))
            ok, r = h.run(lambda: 1 / c ** inf, "1/c^inf")
            if ok: val(h, r, 0, "1/c^inf")
            ok, r = h.run(lambda: q + c ** ninf, "q+c^-inf")
            if ok: h.equal(r, q, "q+c^-inf")
            ok, r = h.run(lambda: q * c ** ninf, "q*c^-inf")
            if ok: h.equal(r, R(0), "q*c^-inf")
    # several operands, in every order
    for i in I:
        for k, perm in enumerate(itertools.permutations(range(3))):
            @T.add("many:%s:%d" % (i, k))
            def _(h, i=i, perm=perm):
                w, s = I[i]
                q, p = R(h.q("q")), R(h.q("p"))
                h.seed_models()
                ops = [[w, q, p][j] for j in perm]
                ok, r = h.run(lambda: X.Sum(list(ops)), "Sum")
                if ok: val(h, r, s, "Sum")
                ok, r = h.run(lambda: ops[0] + ops[1] + ops[2], "+")
                if ok: val(h, r, s, "+")
                g = sgnq(q.value) * sgnq(p.value)
                if g == 0: return
                ok, r = h.run(lambda: X.Prod(list(ops)), "Prod")
                if ok: val(h, r, s * g, "Prod")
                ok, r = h.run(lambda: ops[0] * ops[1] * ops[2], "*")
                if ok: val(h, r, s * g, "*")
    # expressions that take an infinite or finite value after substitution of limits
    x = S("x")
    SUBS = {
        "a+x": (lambda h, a: a + x, lambda s, g: s), "a*x": (lambda h, a: a * x, lambda s, g: s * g), "-x": (lambda h, a: a - x, lambda s, g: -s), "e^x": (lambda h, a: X.e ** x, lambda s, g: 1 if s > 0 else 0), "e^-x": (lambda h, a: X.e ** (-x), lambda s, g: 1 if s < 0 else 0), "1/x": (lambda h, a: 1 / x, lambda s, g: 0), "x^-2": (lambda h, a: a * x ** -2, lambda s, g: 0), "x^2": (lambda h, a: a * x ** 2, lambda s, g: g), "x^3": (lambda h, a: a * x ** 3, lambda s, g: s * g), "x+x^3": (lambda h, a: x + x ** 3, lambda s, g: s), "e^2x": (lambda h, a: X.e ** (2 * x) + 1, lambda s, g: 1 if s > 0 else "one"), "ae^x": (lambda h, a: a * X.e ** x, lambda s, g: g if s > 0 else 0),
    }
    for k, i in itertools.product(SUBS, I):
        @T.add("subs:%s:%s" % (k, i))
        def _(h, k=k, i=i):
            a = h.q("a", nz=True)
            if k == "x^-2": h.assume(a < 2 ** 900); h.assume(a > -2 ** 900)
            h.seed_models()
            w, s = I[i]
            mk, want = SUBS[k]
            ok, r = h.run(lambda: mk(h, R(a)).subs({"x": w}), "subs")
            if not ok: return
            t = want(s, sgnq(a))
            if t == "one": h.equal(r, R(1), "limit")
            else: val(h, r, t, "limit", " for a=%s" % h.show(R(a)))
    return T
