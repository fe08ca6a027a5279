from ..tpl import *

BOUNDS = ("arbitrary rationals for + - * / negation abs reciprocal comparisons; // and % by arbitrary integers and by listed rationals; "
          "integer powers -4..4 of arbitrary rationals; sums/products of up to 4 numbers")

def isrational(h, r, label):
    """the result is a Rat holding a Fraction"""
    n = type(r).__name__
    ok = n == "Rat" and isinstance(r.value, Fraction)
    h.true(ok, label + " exact rational", lambda: "%s %r" % (n, r))
    return ok

def templates(tier):
    T = TL()
    def Rn(v): return R(v) if not isinstance(v, int) else R(v)
    def two(h, nzb=False):
        a, b = h.q("a"), h.q("b", nz=nzb)
        h.seed_models()
        return a, b
    OPS = {
        "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
    }
    # how operands are presented: Rat op Rat, Rat op python number, python number op Rat
    for o, op in OPS.items():
        for form in ("RR", "Rn", "nR"):
            def f(h, o=o, op=op, form=form):
                a, b = two(h, o == "/")
                A = R(a) if form[0] == "R" else a
                B = R(b) if form[1] == "R" else b
                ok, r = h.run(lambda: op(A, B), "%s %s" % (form, o))
                if ok and isrational(h, r, o): h.equal(r, (o, a, b), "%s %s" % (form, o))
            T.add("op:%s:%s" % (o, form))(f)
        def g(h, o=o, op=op):
            n, m = h.i("n"), h.i("m", nz=(o == "/"))
            h.seed_models()
            for form, A, B in (("RR", R(n), R(m)), ("Rn", R(n), m), ("nR", n, R(m))):
                ok, r = h.run(lambda: op(A, B), "%s %s" % (form, o))
                if ok and isrational(h, r, o): h.equal(r, (o, n, m), "%s %s" % (form, o))
        T.add("op-int:%s" % o)(g)
    @T.add("neg-abs")
    def _(h):
        a = h.q("a")
        h.seed_models()
        ok, r = h.run(lambda: -R(a))
        if ok and isrational(h, r, "neg"): h.equal(r, ("neg", a), "neg")
        ok, r = h.run(lambda: abs(R(a)))
        if ok and isrational(h, r, "abs"):
            h.equal(r, a if a >= 0 else ("neg", a), "abs")
        ok, r = h.run(lambda: sp().Abs(R(a)))
        if ok and isrational(h, r, "Abs"):
            h.equal(r, a if a >= 0 else ("neg", a), "Abs")
        ok, s = h.run(lambda: R(a).sign)
        if ok: h.true(s == (-1 if a < 0 else 1), "sign", lambda: "sign %s" % s)
        ok, s = h.run(lambda: R(a).is_subtraction)
        if ok: h.true(bool(s) == bool(a < 0), "is_subtraction")
    @T.add("reciprocal")
    def _(h):
        a = h.q("a", nz=True)
        h.seed_models()
        ok, r = h.run(lambda: R(a).reciprocal())
        if ok and isrational(h, r, "reciprocal"): h.equal(r, ("/", 1, a), "reciprocal")
        ok, r = h.run(lambda: 1 / R(a))
        if ok and isrational(h, r, "1/a"): h.equal(r, ("/", 1, a), "1/a")
    @T.add("num-den")
    def _(h):
        a = h.q("a")
        h.seed_models()
        ok, n = h.run(lambda: R(a).numerator)
        ok2, d = h.run(lambda: R(a).denominator)
        if not (ok and ok2): return
        if isrational(h, n, "numerator") and isrational(h, d, "denominator"):
            h.equal(("/", n, d), a, "n/d")
            h.true(h.is_int(n.value) and h.is_int(d.value), "n,d integers")
            h.true(d.value > 0, "denominator positive")
        ok, b = h.run(lambda: R(a).is_int)
        if ok: h.true(bool(b) == h.is_int(a), "is_int")
    for k in range(-4, 5):
        def f(h, k=k):
            a = h.q("a", nz=(k <= 0))
            h.seed_models()
            for nm, fn in (("Rat**int", lambda: R(a) ** k), ("Rat**Rat", lambda: R(a) ** R(k)), ("Power", lambda: sp().Power(R(a), R(k)))):
                ok, r = h.run(fn, nm)
                if ok and isrational(h, r, nm): h.equal(r, ("^", a, k), nm)
        T.add("pow:%d" % k)(f)
    @T.add("int**int")
    def _(h):
        a = h.i("a", -6, 6, nz=True)
        n = h.i("n", -4, 4)
        h.seed_models()
        for nm, fn in (("Rat**Rat", lambda: R(a) ** R(n)), ("num**Rat", lambda: a ** R(n) if not h.sym else R(a).__class__(a) ** R(n))):
            ok, r = h.run(fn, nm)
            if ok and isrational(h, r, nm): h.equal(r, ("^", a, n), nm)
    for den in (1, 2, 3, 4, 6):
        for m in (F(2), F(1), F(-2), F(3), F(1, 2), F(3, 2), F(-3, 4)):
            def f(h, den=den, m=m):
                n = h.i("n")
                h.seed_models()
                a = n / F(den) if h.sym else F(n, den)
                ok, r = h.run(lambda: R(a) % R(m), "%")
                if ok and isrational(h, r, "%"):
                    r0 = r.value
                    h.true((r0 >= 0 and r0 < m) if m > 0 else (r0 <= 0 and r0 > m), "% range", lambda: "%s" % r)
                    h.true(h.is_int((a - r0) / m), "% congruent", lambda: "%s" % r)
                ok, q = h.run(lambda: R(a) // R(m), "//")
                if ok and isrational(h, q, "//"):
                    h.true(h.is_int(q.value), "// integer")
                    d = a - q.value * m
                    h.true((d >= 0 and d < m) if m > 0 else (d <= 0 and d > m), "// floor", lambda: "%s" % q)
                ok, r = h.run(lambda: R(a) % (int(m) if m.denominator == 1 else m), "% number")
                if ok and isrational(h, r, "%"):
                    h.true(h.is_int((a - r.value) / m), "% number congruent")
            T.add("mod:n/%d mod %s" % (den, m))(f)
    CMP = {"==": lambda a, b: a == b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
    for c, op in CMP.items():
        def f(h, c=c, op=op):
            a, b = two(h)
            for form, A, B in (("RR", R(a), R(b)), ("Rn", R(a), b)):
                ok, r = h.run(lambda: op(A, B), "%s %s" % (form, c))
                if ok: h.true(bool(r) == bool(op(a, b)), "%s %s" % (form, c), lambda: "%s %s %s gave %s" % (a, c, b, r))
            if c == "==":
                ok, r = h.run(lambda: R(a) != R(b))
                if ok: h.true(bool(r) == bool(a != b), "!=")
        T.add("cmp:%s" % c)(f)
        def g(h, c=c, op=op):
            n, m = h.i("n"), h.i("m")
            h.seed_models()
            ok, r = h.run(lambda: op(R(n), m))
            if ok: h.true(bool(r) == bool(op(n, m)), "int " + c)
            ok, r = h.run(lambda: op(n, R(m)))
            if ok: h.true(bool(r) == bool(op(n, m)), "int reflected " + c)
        T.add("cmp-int:%s" % c)(g)
        def k(h, c=c, op=op):
            a = h.q("a")
            h.seed_models()
            X = sp()
            # compared with the exact doubles of the constants and decimals
            for nm, C, v in (("0.5", X.Float(0.5), F(1, 2)), ("-2.25", X.Float(-2.25), F(-9, 4)), ("3.0", X.Float(3.0), F(3))):
                ok, r = h.run(lambda: op(R(a), C), nm)
                if ok: h.true(bool(r) == bool(op(a, v)), "Rat %s %s" % (c, nm), lambda: "%s" % r)
                ok, r = h.run(lambda: op(C, R(a)), nm)
                if ok: h.true(bool(r) == bool(op(v, a)), "%s %s Rat" % (nm, c), lambda: "%s" % r)
            if c != "==":
                for nm, C, lo, hi in (("pi", X.pi, F(314159265358979, 10 ** 14), F(31415926535898, 10 ** 13)), ("e", X.e, F(271828182845904, 10 ** 14), F(271828182845905, 10 ** 14))):
                    if a >= lo and a <= hi: continue
                    ok, r = h.run(lambda: op(R(a), C), nm)
                    if ok: h.true(bool(r) == bool(op(a, lo)), "Rat %s %s" % (c, nm), lambda: "%s" % r)
        T.add("cmp-const:%s" % c)(k)
    @T.add("rat-constructor")
    def _(h):
        a = h.q("a")
        n, d = h.i("n"), h.i("d", nz=True)
        h.seed_models()
        ok, r = h.run(lambda: sp().Const(a))
        if ok and isrational(h, r, "Const"): h.equal(r, a, "Const(fraction)")
        ok, r = h.run(lambda: sp().Const(n))
        if ok and isrational(h, r, "Const"): h.equal(r, n, "Const(int)")
        ok, r = h.run(lambda: sp().Rat(n, d))
        if ok and isrational(h, r, "Rat"): h.equal(r, ("/", n, d), "Rat(n,d)")
    @T.add("accumulate")
    def _(h):
        a, b, c, d = h.q("a"), h.q("b"), h.q("c"), h.q("d")
        h.seed_models()
        X = sp()
        for nm, fn, ref in (("Sum", lambda: X.Sum([R(a), R(b), R(c), R(d)]), ("+", a, b, c, d)), ("Prod", lambda: X.Prod([R(a), R(b), R(c), R(d)]), ("*", a, b, c, d)),
                            ("accumulate", lambda: X.accumulate(R(a), R(b), R(c)), ("+", a, b, c)), ("accumulate prod", lambda: X.accumulate(R(a), R(b), R(c), type_="prod"), ("*", a, b, c)),
                            ("mixed", lambda: (R(a) + b) * c - R(d), ("-", ("*", ("+", a, b), c), d))):
            ok, r = h.run(fn, nm)
            if ok and isrational(h, r, nm): h.equal(r, ref, nm)
    @T.add("accumulate-shared")
    def _(h):
        a, b = h.q("a"), h.q("b")
        h.seed_models()
        X = sp()
        A = R(a)
        ok, r = h.run(lambda: X.Sum([A, A, R(b), A]))
        if ok and isrational(h, r, "Sum"): h.equal(r, ("+", ("*", 3, a), b))
        ok, r = h.run(lambda: X.Prod([A, A, R(b)]))
        if ok and isrational(h, r, "Prod"): h.equal(r, ("*", a, a, b))
    for v in (10 ** 30 + 7, -(10 ** 25), F(1, 3 ** 60), 2 ** 80 + 1):
        def f(h, v=v):
            a = h.q("a", nz=True)
            h.seed_models()
            for o, op in OPS.items():
                ok, r = h.run(lambda: op(R(v), R(a)), o)
                if ok and isrational(h, r, o): h.equal(r, (o, v, a), "big " + o)
            ok, r = h.run(lambda: R(v) < R(a))
            if ok: h.true(bool(r) == bool(v < a), "big <")
            ok, r = h.run(lambda: R(v) ** 3)
            if ok and isrational(h, r, "^"): h.equal(r, F(v) ** 3, "big ^3")
        T.add("big:%s" % (v if v < 10 ** 6 else v % 9973))(f)
    return T
