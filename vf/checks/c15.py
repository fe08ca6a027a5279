from ..tpl import *
import itertools, random, warnings

BOUNDS = ("polynomials of degree up to 6 with up to five symbolic rational coefficients (any of which may vanish), products and powers of sums, the listed non-polynomials; coefficient lists up to length 5; "
          "integrands that are quotients of such polynomials of degree up to 5 by degree up to 3 for polynomial division and by two linear factors (or a quadratic with a common factor) for partial fractions; 2x2 matrices with rational and symbolic entries")

PER = {"quick": 12, "thorough": 250}

def contains(e, v):
    return e == v or any(contains(c, v) for c in e.children())

def degree(e, v):
    """degree of a polynomial expression tree in v (None: not a polynomial)"""
    n = type(e).__name__
    if not contains(e, v): return 0
    if n == "Symbol": return 1
    if n == "Sum":
        d = [degree(t, v) for t in e.terms]
        return None if None in d else max(d)
    if n == "Prod":
        d = [degree(t, v) for t in e.terms]
        return None if None in d else sum(d)
    if n == "Power" and type(e.exponent).__name__ == "Rat" and not contains(e.exponent, v):
        d = degree(e.base, v)
        x = e.exponent.value
        if d is None or not x == int(x) or x < 0: return None
        return d * int(x)
    return None

def split(e, v):
    """numerator and denominator factors of a term that contain v in the denominator"""
    fs = list(e.terms) if type(e).__name__ == "Prod" else [e]
    num, den = [], []
    for f in fs:
        if type(f).__name__ == "Power" and type(f.exponent).__name__ == "Rat" and f.exponent.value < 0: den.append((f.base, -f.exponent.value))
        else: num.append(f)
    return num, den

def templates(tier):
    warnings.simplefilter("ignore")
    T = TL()
    X = sp()
    import importlib
    P = importlib.import_module("simpy.polynomial")
    TF = importlib.import_module("simpy.transforms")
    LA = importlib.import_module("simpy.linalg")
    import numpy as np
    qk = tier == "quick"
    rng = random.Random(15)
    x, y, z, a = S("x"), S("y"), S("z"), S("a")
    # ---- reading coefficients
    def value(h, lst, v):
        return ("+", R(0)) + tuple(("*", R(c) if not isinstance(c, X.Expr) else c, ("^", v, i) if i else 1) for i, c in enumerate(lst))
    def conv(nm, mk, poly):
        """poly: True = has rational coefficients (must be accepted), False = must be rejected, None = either"""
        def f(h):
            e = mk(h)
            h.seed_models()
            ok, r = h.run(lambda: P.to_const_polynomial(e, x), "to_const_polynomial", allow=(AssertionError,) if poly is not True else ())
            ok2, b = h.run(lambda: P.is_polynomial(e, x), "is_polynomial")
            if ok2: h.true(b is True or b is False, "is_polynomial answers", lambda: repr(b))
            if ok2: h.true(b == ok, "is_polynomial agrees with the conversion", lambda: "%r %r" % (b, ok))
            if not ok: return
            if not h.true(poly is not False, "a non-polynomial is rejected", lambda: "%s -> %r" % (h.show(e), list(r))): return
            lst = list(r)
            if not h.true(all(not isinstance(c, X.Expr) or not contains(c, x) for c in lst), "coefficients are constants", lambda: repr(lst)): return
            h.equal(value(h, lst, x), e, "coefficients")
            ok, back = h.run(lambda: P.polynomial_to_expr(r, x), "polynomial_to_expr")
            if ok: h.equal(back, e, "there and back")
            if ok2: h.true(len(lst) == 0 or lst[-1] != 0 or len(lst) == 1, "significant coefficients only", lambda: repr(lst))
        T.add("poly:" + nm)(f)
    for n in (1, 2, 3, 4) if qk else (1, 2, 3, 4, 5):
        for sh in itertools.combinations(range(6), n) if not qk else rng.sample(list(itertools.combinations(range(6), n)), 5 if n > 1 else 6):
            conv("coef %s" % (sh,), lambda h, sh=sh: X.Sum([h.q("c%d" % i) * x ** i if i else R(h.q("c0")) for i in sh]) if len(sh) > 1 else h.q("c%d" % sh[0]) * x ** sh[0], True)
    PF = {
        "(x+a)(x+b)": lambda h: (x + R(h.q("a"))) * (x + R(h.q("b"))), "a(x+b)(x+1)": lambda h: R(h.q("a", nz=True)) * (x + R(h.q("b"))) * (x + 1), "(ax+b)^2": lambda h: (R(h.q("a", nz=True)) * x + R(h.q("b"))) ** 2, "(x+b)^3": lambda h: (x + R(h.q("b"))) ** 3, "x(x+b)": lambda h: x * (x + R(h.q("b"))), "x^2(x^2+b)": lambda h: x ** 2 * (R(h.q("a", nz=True)) * x ** 2 + R(h.q("b"))),
        "(x+a)(x-a)": lambda h: (x + R(h.q("a"))) * (x - R(h.q("a"))), "(x+1)(x^2-x+b)": lambda h: (x + 1) * (x ** 2 - x + R(h.q("b"))), "x^n": lambda h: h.q("a", nz=True) * x ** R(h.i("n", 1, 6)), "n": lambda h: x ** R(h.i("n", 1, 4)) + h.q("a") * x ** R(h.i("m", 1, 4)) + R(h.q("b")), "num": lambda h: R(h.q("a")), "(x+a)^2+x": lambda h: (x + R(h.q("a"))) ** 2 + h.q("b") * x, "x": lambda h: x,
    }
    for k, v in PF.items(): conv(k, v, True)
    NP = {
        "1/x": lambda h: h.q("a", nz=True) / x, "sqrt": lambda h: X.sqrt(x) + R(h.q("a")), "sin": lambda h: X.sin(x) * h.q("a", nz=True), "e^x": lambda h: X.e ** x + x, "2^x": lambda h: R(2) ** x, "ln": lambda h: X.log(x) + R(h.q("a")), "abs": lambda h: X.Abs(x) + R(h.q("a")), "x^(1/2)": lambda h: h.q("a", nz=True) * x ** R(F(3, 2)), "x sin": lambda h: x * X.sin(x), "x^-2": lambda h: x ** R(h.i("n", -4, -1)) + x ** 2, "(x+1)^-1": lambda h: (x + R(h.q("a"))) ** -1, "x^x": lambda h: x ** x, "asin": lambda h: X.asin(x) + x, "tan": lambda h: x ** 2 + h.q("a", nz=True) * X.tan(x), "x^y": lambda h: x ** y + 1, "y^x": lambda h: y ** x, "sqrt lin": lambda h: X.sqrt(x + R(h.q("a"))), "ratio": lambda h: (x + R(h.q("a"))) / (x + y), "sin2": lambda h: X.sin(x) ** 2 + x,
    }
    for k, v in NP.items(): conv("non " + k, v, False)
    conv("frac exponent", lambda h: x ** R(h.frac("n", 2, -2, 8)), None)
    conv("any exponent", lambda h: h.q("a", nz=True) * x ** R(h.q("n")) + 1, None)
    for k, v in {"y": lambda h: y + x * h.q("a"), "xy": lambda h: x * y + h.q("a"), "pi": lambda h: X.pi * x + R(h.q("a")), "pi c": lambda h: X.pi + x ** 2 * h.q("a"), "fl": lambda h: X.Float(0.5) + x, "fl x": lambda h: X.Float(0.5) * x + h.q("a"), "sin y": lambda h: X.sin(y) * h.q("a") + x ** 3, "y^2 x": lambda h: (x + y) * (x + R(h.q("a"))), "sqrt2": lambda h: X.sqrt(2) + h.q("a") * x, "y+y^2": lambda h: y + h.q("a") * y ** 2 + R(h.q("b")) + x, "(y+x)^2": lambda h: (y + x) ** 2 * h.q("a", nz=True), "consts": lambda h: X.pi + X.sqrt(3) + y + h.q("a", nz=True) * x}.items():
        conv("mixed " + k, v, None)
    # ---- lists
    for n in range(0, 5 if qk else 7):
        def f(h, n=n):
            lst = [R(h.q("c%d" % i)) for i in range(n)]
            h.seed_models()
            cp = list(lst)
            ok, r = h.run(lambda: P.rid_ending_zeros(np.array(lst)), "rid_ending_zeros")
            if not ok: return
            r = list(r)
            k = n
            while k and bool(lst[k - 1] == 0): k -= 1
            h.true(len(r) == k, "keeps the significant coefficients", lambda: "%r of %r" % (r, lst))
            h.true(all(p == q for p, q in zip(r, cp)), "coefficients unchanged")
            h.true(len(lst) == n and all(p is q for p, q in zip(lst, cp)), "argument unchanged")
        T.add("trim:%d" % n)(f)
        if n:
            def f(h, n=n):
                lst = [R(h.q("c%d" % i)) if i % 3 != 2 else y * h.q("c%d" % i) for i in range(n)]
                h.seed_models()
                ok, e = h.run(lambda: P.polynomial_to_expr(np.array(lst), x), "polynomial_to_expr")
                if ok: h.equal(e, value(h, lst, x), "polynomial_to_expr")
            T.add("expr:%d" % n)(f)
    # ---- division and partial fractions as integration steps
    def step(cls, nm, mk, after, must=None):
        def f(h):
            e = mk(h)
            h.seed_models()
            node = TF.Node(e, x)
            t = cls()
            ok, c = h.run(lambda: t.check(node), "check")
            if not ok: return
            if must is not None and not isinstance(e, X.Prod): must_ = None
            else: must_ = must
            if not c:
                h.true(True, "does not apply")
                return
            ok, _ = h.run(lambda: t.forward(node), "forward")
            if not ok or not node.children: return
            if not h.true(len(node.children) == 1, "one sub-integral"): return
            ch = node.children[0]
            h.true(ch.var == x, "same variable")
            h.equal(ch.expr, e, "same value")
            after(h, e, ch.expr)
        T.add("%s:%s" % (cls.__name__, nm))(f)
    def proper(h, e, r):
        for t in (r.terms if isinstance(r, X.Sum) else [r]):
            num, den = split(t, x)
            dd = [degree(b, x) for b, k in den]
            if all(d == 0 for d in dd): continue
            nd = [degree(b, x) for b in num]
            if not h.true(None not in dd and None not in nd, "polynomial numerator and denominator", lambda: h.show(t)): continue
            h.true(sum(nd) < sum(d * int(k) for d, (b, k) in zip(dd, den)), "proper remainder", lambda: "%s in %s" % (h.show(t), h.show(r)))
    def lin(h, e, r):
        for t in (r.terms if isinstance(r, X.Sum) else [r]):
            num, den = split(t, x)
            h.true(all(degree(b, x) == 0 for b in num) and sum(1 for b, k in den if contains(b, x)) <= 1, "separate fractions", lambda: h.show(r))
    q = lambda h, n, **k: h.q(n, **k)
    NUM = {
        "c": lambda h: R(q(h, "n0", nz=True)), "x+c": lambda h: x + R(q(h, "n0")), "nx": lambda h: q(h, "n1", nz=True) * x, "nx+c": lambda h: q(h, "n1", nz=True) * x + R(q(h, "n0", nz=True)), "x2": lambda h: x ** 2, "x2+n": lambda h: x ** 2 + q(h, "n1") * x + R(q(h, "n0")), "x3": lambda h: q(h, "n1", nz=True) * x ** 3, "x3+": lambda h: x ** 3 - q(h, "n1") * x + 1, "x4": lambda h: x ** 4 + q(h, "n1") * x ** 2 + R(q(h, "n0")), "x5": lambda h: x ** 5 + q(h, "n1", nz=True), "x2 sq": lambda h: (x + R(q(h, "n0"))) ** 2, "prod": lambda h: x * (x + R(q(h, "n0"))), "xn": lambda h: x ** R(h.i("n", 1, 5)),
    }
    DEN = {
        "x+b": lambda h: x + R(q(h, "d0", nz=True)), "ax+b": lambda h: q(h, "d1", nz=True) * x + R(q(h, "d0", nz=True)), "x2+b": lambda h: x ** 2 + R(q(h, "d0", nz=True)), "x2+ax+b": lambda h: x ** 2 + q(h, "d1") * x + R(q(h, "d0", nz=True)), "ax2": lambda h: q(h, "d1", nz=True) * x ** 2 + 1, "x3+b": lambda h: x ** 3 + R(q(h, "d0", nz=True)), "x": lambda h: x, "x2": lambda h: x ** 2, "(x+b)^2": lambda h: (x + R(q(h, "d0", nz=True))) ** 2, "x2-x": lambda h: x ** 2 + q(h, "d0", nz=True) * x, "(x+b)(x+1)": lambda h: (x + R(q(h, "d0"))) * (x + 1), "y": lambda h: x + y,
    }
    for i, (nk, dk) in enumerate(itertools.product(NUM, DEN)):
        if qk and rng.random() < .55: continue
        step(TF.PolynomialDivision, "%s / %s" % (nk, dk), lambda h, nk=nk, dk=dk: NUM[nk](h) / DEN[dk](h), proper)
    step(TF.PolynomialDivision, "scaled", lambda h: q(h, "k", nz=True) * (x ** 2 + R(q(h, "n0"))) / (x + R(q(h, "d0"))), proper)
    PD = {
        "(x+a)(x+b)": lambda h: (x + R(q(h, "d0"))) * (x + R(q(h, "d1"))), "(ax+b)(cx+d)": lambda h: (q(h, "d0", nz=True) * x + 1) * (q(h, "d1", nz=True) * x + R(q(h, "d2"))), "x(x+b)": lambda h: x * (x + R(q(h, "d0"))), "x(ax+b)": lambda h: x * (q(h, "d1", nz=True) * x + R(q(h, "d0"))), "x2+bx": lambda h: x ** 2 + q(h, "d0", nz=True) * x, "ax2+bx": lambda h: q(h, "d1", nz=True) * x ** 2 + q(h, "d0", nz=True) * x, "k(x+a)(x+b)": lambda h: q(h, "k", nz=True) * (x + R(q(h, "d0"))) * (x + 1), "(x+a)^2": lambda h: (x + R(q(h, "d0"))) ** 2, "(x2+a)(x+b)": lambda h: (x ** 2 + R(q(h, "d0"))) * (x + 1), "x2(x+b)": lambda h: x ** 2 * (x + R(q(h, "d0"))), "(x2+a)(x2+b)": lambda h: (x ** 2 + R(q(h, "d0"))) * (x ** 2 + R(q(h, "d1"))), "(x+y)(x+b)": lambda h: (x + y) * (x + R(q(h, "d0"))), "(x+y)(x+z)": lambda h: (x + y) * (x + z), "(x+y)(x-y)": lambda h: (x + q(h, "d0", nz=True) * y) * (x - y), "x y (x+b)": lambda h: x * y * (x + R(q(h, "d0"))), "(x+b)y": lambda h: (x + R(q(h, "d0"))) * (y + 1), "x3+x": lambda h: x ** 3 + q(h, "d0", nz=True) * x, "three": lambda h: x * (x + 1) * (x + R(q(h, "d0"))), "(x+pi)(x+b)": lambda h: (x + X.pi) * (x + R(q(h, "d0"))), "(x+s2)(x-s2)": lambda h: (x + X.sqrt(2)) * (x - X.sqrt(2)), "one": lambda h: x + R(q(h, "d0")), "x^2(x^2+b)": lambda h: x ** 2 * (x ** 2 + R(q(h, "d0"))), "(x^2)(x+y)^2": lambda h: (x + 1) ** 2 * (x + R(q(h, "d0"))),
    }
    PD["sec factors"] = lambda h: X.sec(x) ** 2 * (x ** 2 / X.sec(x) ** 2 + q(h, "d0", nz=True) / X.sec(x) ** 2)
    PD["root factors"] = lambda h: X.sqrt(x) * (x ** R(F(3, 2)) + q(h, "d0", nz=True) * X.sqrt(x))
    PD["sin factors"] = lambda h: X.sin(x) * (x / X.sin(x) + q(h, "d0", nz=True) / X.sin(x))
    PD["1/x factors"] = lambda h: (x ** 3 + q(h, "d0", nz=True) * x) * (1 + 1 / x)
    PN = {k: NUM[k] for k in ("c", "x+c", "nx", "nx+c", "x2", "x2+n", "xn")}
    PN["y"] = lambda h: y
    PN["xy"] = lambda h: x * y * q(h, "n0", nz=True)
    PN["x+y"] = lambda h: x + y
    for nk, dk in itertools.product(PN, PD):
        if qk and nk in ("x2", "x2+n", "xn", "y", "xy", "x+y") and rng.random() < .7: continue
        step(TF.PartialFractions, "%s / %s" % (nk, dk), lambda h, nk=nk, dk=dk: PN[nk](h) / PD[dk](h), lin)
    # ---- 2x2 matrices
    ENT = {
        "q": lambda h, n: R(h.q(n)), "y": lambda h, n: y * h.q(n, nz=True), "x": lambda h, n: x, "c0": lambda h, n: R(0), "c1": lambda h, n: R(1), "x+y": lambda h, n: x + R(h.q(n)), "pi": lambda h, n: X.pi * h.q(n, nz=True), "s2": lambda h, n: X.sqrt(2),
    }
    cells = [("q",) * 4, ("y", "q", "q", "y"), ("x", "y", "y", "x"), ("c0", "q", "q", "c0"), ("x", "x", "x", "x"), ("s2", "c1", "q", "s2"), ("pi", "q", "q", "pi"), ("c1", "x+y", "c1", "q"), ("c0", "c0", "q", "q"), ("q", "q", "c0", "q"), ("x", "x+y", "c1", "c1")] + [tuple(rng.choice(list(ENT)) for _ in range(4)) for _ in range(12 if qk else 80)]
    for cs in dict.fromkeys(cells):
        def f(h, cs=cs):
            m = [ENT[c](h, "m%d" % i) for i, c in enumerate(cs)]
            h.seed_models()
            arr = np.array(m, dtype=object).reshape(2, 2)
            ok, r = h.run(lambda: LA.invert(arr), "invert")
            if not ok: return
            det = ("-", ("*", m[0], m[3]), ("*", m[1], m[2]))
            h.true(all(p is q_ for p, q_ in zip(arr.flatten(), m)), "argument unchanged")
            if r is None:
                h.equal(R(0), det, "singular only if the determinant vanishes")
                return
            if not h.true(r.shape == (2, 2), "a 2x2 matrix"): return
            h.true(not (all(c in ("q", "c0", "c1") for c in cs) and bool(m[0] * m[3] - m[1] * m[2] == 0)), "a singular matrix is reported")
            i = r.flatten()
            for (p, s, w, v), ref in {(0, 0, 1, 2): 1, (0, 1, 1, 3): 0, (2, 0, 3, 2): 0, (2, 1, 3, 3): 1}.items():
                h.equal(("+", ("*", m[p], i[s]), ("*", m[w], i[v])), R(ref), "matrix times inverse", strict=False)
        T.add("inv:" + "|".join(cs))(f)
    return T
