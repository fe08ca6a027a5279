from ..tpl import *

BOUNDS = "operand shapes listed in templates (pairs of 22 operand kinds; up to 5 operands; nesting depth 3); every coefficient any rational, integer exponents in [-3,3] or any rational where noted"

KINDS = ["c", "x", "ax", "ay", "axy", "xn", "axn", "lin", "alin", "linn", "asin", "ex", "api", "ln", "sqr", "inv", "absx", "xy", "fl", "r2", "neg"]
def ops(h, A, B, which="+-*/"):
    h.seed_models()
    a, b = MK[A](h, "1"), MK[B](h, "2")
    for o in which:
        f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[o]
        if o == "/" and zero(h, b): continue
        ok, r = h.run(f, "a%sb" % o)
        if ok: h.equal(r, (o, a, b), "a%sb" % o)
    ok, r = h.run(lambda: -a, "-a")
    if ok: h.equal(r, ("neg", a), "-a")

def zero(h, b):
    return type(b).__name__ == "Rat" and b.value == 0

def templates(tier):
    T = TL()
    for i, A in enumerate(KINDS):
        for B in KINDS[i:]:
            if A == "fl" and B == "fl": continue
            def f(h, A=A, B=B): ops(h, A, B)
            T.add("pair:%s,%s" % (A, B))(f)
            if A != B and (tier == "thorough" or (A in ("c", "ax", "xn", "lin") )):
                def g(h, A=A, B=B): ops(h, B, A, "-/")
                T.add("pair:%s,%s" % (B, A))(g)

    @T.add("sum5")
    def _(h):
        a, b, c = h.q("a"), h.q("b"), h.q("c")
        h.seed_models()
        x, y = S("x"), S("y")
        t = [a * x, y, b * x, x, c * y] if not h.sym or True else None
        ok, r = h.run(lambda: sp().Sum(t))
        if ok: h.equal(r, ("+", ("*", a, x), y, ("*", b, x), x, ("*", c, y)))
    @T.add("sum-nest")
    def _(h):
        a, b = h.q("a"), h.q("b")
        h.seed_models()
        x, y = S("x"), S("y")
        ok, r = h.run(lambda: (a * x + y) + ((b + x) + (y + (a * x + b * y))))
        if ok: h.equal(r, ("+", ("*", a, x), y, b, x, y, ("*", a, x), ("*", b, y)))
    @T.add("sum-nest-minus")
    def _(h):
        a, b = h.q("a"), h.q("b")
        h.seed_models()
        x, y = S("x"), S("y")
        ok, r = h.run(lambda: (a * x + y) - ((b - x) - (y - (a * x - b))))
        if ok: h.equal(r, ("-", ("+", ("*", a, x), y), ("-", ("-", b, x), ("-", y, ("-", ("*", a, x), b)))))
    @T.add("prod5")
    def _(h):
        a, b = h.q("a"), h.q("b")
        n, m = h.i("n", -3, 3), h.i("m", -3, 3)
        h.seed_models()
        x, y = S("x"), S("y")
        ok, r = h.run(lambda: sp().Prod([x ** n, R(a), y, x ** m, R(b)]))
        if ok: h.equal(r, ("*", ("^", x, n), a, y, ("^", x, m), b))
    @T.add("prod-same-base-rational")
    def _(h):
        n, m, k = h.q("n"), h.q("m"), h.q("k")
        h.seed_models()
        x = S("x")
        ok, r = h.run(lambda: sp().Prod([x ** R(n), x ** R(m), x ** R(k)]))
        if ok: h.equal(r, ("*", ("^", x, n), ("^", x, m), ("^", x, k)))
    @T.add("prod-sum-base")
    def _(h):
        a, b = h.q("a", nz=True), h.q("b", nz=True)
        n, m = h.i("n", -3, 3), h.i("m", -3, 3)
        h.seed_models()
        x, y = S("x"), S("y")
        s = a * x + y
        ok, r = h.run(lambda: sp().Prod([s ** n, R(b), y, s ** m, x]))
        if ok: h.equal(r, ("*", ("^", s, n), b, y, ("^", s, m), x))
    @T.add("prod-neg-sum")
    def _(h):
        a, b = h.q("a"), h.q("b")
        h.seed_models()
        x, y = S("x"), S("y")
        s = a * x + b * y + 1
        ok, r = h.run(lambda: -1 * s)
        if ok: h.equal(r, ("neg", s))
        ok, r = h.run(lambda: sp().Prod([R(-1), s, R(a)]))
        if ok: h.equal(r, ("*", -1, s, a))
    @T.add("prod-numbers-exp")
    def _(h):
        a, b = h.q("a", pos=True), h.q("b", pos=True)
        h.seed_models()
        x, y = S("x"), S("y")
        ok, r = h.run(lambda: sp().Prod([R(a) ** x, R(b) ** x, R(a) ** y, R(a)]))
        if ok: h.equal(r, ("*", ("^", a, x), ("^", b, x), ("^", a, y), a))
    @T.add("prod-e")
    def _(h):
        a, b = h.q("a"), h.q("b")
        h.seed_models()
        x, y = S("x"), S("y")
        e = sp().e
        ok, r = h.run(lambda: sp().Prod([e ** (a * x), e, e ** (b * x), e ** y]))
        if ok: h.equal(r, ("*", ("^", e, ("*", a, x)), e, ("^", e, ("*", b, x)), ("^", e, y)))
    @T.add("sum-irrational-coeffs")
    def _(h):
        a, b = h.q("a"), h.q("b")
        h.seed_models()
        x, p, r2 = S("x"), sp().pi, sp().sqrt(2)
        ok, r = h.run(lambda: sp().Sum([a * p * x, b * p * x, a * r2 * x, b * x, p, a * p, r2]))
        if ok: h.equal(r, ("+", ("*", a, p, x), ("*", b, p, x), ("*", a, r2, x), ("*", b, x), p, ("*", a, p), r2))
    @T.add("sum-shared-term")
    def _(h):
        a, b = h.q("a"), h.q("b")
        h.seed_models()
        x, y = S("x"), S("y")
        s = a * sp().sin(x) * y + b
        ok, r = h.run(lambda: s + s * x + s + s * x)
        if ok: h.equal(r, ("+", s, ("*", s, x), s, ("*", s, x)))
    @T.add("div-chain")
    def _(h):
        a, b = h.q("a", nz=True), h.q("b", nz=True)
        n = h.i("n", 1, 3)
        h.seed_models()
        x, y = S("x"), S("y")
        ok, r = h.run(lambda: (a * x / y) / (b * y / x ** n) / (a * y))
        if ok: h.equal(r, ("/", ("/", ("/", ("*", a, x), y), ("/", ("*", b, y), ("^", x, n))), ("*", a, y)))
    @T.add("div-sum")
    def _(h):
        a, b = h.q("a", nz=True), h.q("b", nz=True)
        h.seed_models()
        x, y = S("x"), S("y")
        ok, r = h.run(lambda: (a * x + y) / (b * x + y) * (b * x + y) / (x + a) + 1 / (x + a))
        if ok: h.equal(r, ("+", ("/", ("+", ("*", a, x), y), ("+", x, a)), ("/", 1, ("+", x, a))))
    @T.add("python-numbers")
    def _(h):
        a = h.q("a", nz=True)
        n = h.i("n", -4, 4)
        h.seed_models()
        x = S("x")
        for o, f, ref in [("a+x", lambda: a + x, ("+", a, x)), ("a-x", lambda: a - x, ("-", a, x)), ("a*x", lambda: a * x, ("*", a, x)), ("a/x", lambda: a / x, ("/", a, x)),
                          ("x+n", lambda: x + n, ("+", x, n)), ("x-n", lambda: x - n, ("-", x, n)), ("x*n", lambda: x * n, ("*", x, n)), ("x/a", lambda: x / a, ("/", x, a)), ("n-x", lambda: n - x, ("-", n, x))]:
            ok, r = h.run(f, o)
            if ok: h.equal(r, ref, o)
    @T.add("decimal-mix")
    def _(h):
        a, b = h.frac("a", 4, -9, 9), h.frac("b", 8, -9, 9)
        h.seed_models()
        x = S("x")
        ok, r = h.run(lambda: sp().Sum([2.5 * a * x, b * x, sp().Float(0.25), R(a), 1.5 * x]))
        if ok: h.equal(r, ("+", ("*", F(5, 2), a, x), ("*", b, x), F(1, 4), a, ("*", F(3, 2), x)))
        ok, r = h.run(lambda: sp().Prod([R(a), sp().Float(0.25), x, R(b), x]))
        if ok: h.equal(r, ("*", a, F(1, 4), x, b, x))
    return T
