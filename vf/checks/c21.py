from ..tpl import *
from .c05 import shadow, same, SYM
import itertools, random, warnings

BOUNDS = ("the listed expression shapes over four symbols (every node class, arbitrary rational coefficients and exponents), up to two combined; queries: every sub-expression that occurs, "
          "the listed ones that may or may not, every node class; renamings among the symbols of the shape and a fresh one")
NOTE = "The answers are compared with an independent walk over the fields of the nodes; equality of numbers is decided by the solver for all coefficient values."

PER = {"quick": 25, "thorough": 300}

def kids(e):
    X = sp()
    n = type(e).__name__
    if isinstance(e, X.Num) or n == "Symbol": return []
    if n in ("Sum", "Prod"): return list(e.terms)
    if n == "Power": return [e.base, e.exponent]
    if n == "log": return [e.inner, e.base]
    return [e.inner]

def nodes(e):
    yield e
    for c in kids(e): yield from nodes(c)

def same2(h, a, b):
    """same expression, order of terms ignored; numbers decided by the solver"""
    X = sp()
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, X.Num): return bool(a.value == b.value)
    if type(a).__name__ == "Symbol": return a.name == b.name
    ka, kb = kids(a), kids(b)
    if len(ka) != len(kb): return False
    if type(a).__name__ in ("Sum", "Prod"):
        left = list(kb)
        for p in ka:
            for i, q in enumerate(left):
                if same2(h, p, q):
                    del left[i]
                    break
            else: return False
        return True
    return all(same2(h, p, q) for p, q in zip(ka, kb))

def occ(h, e, q):
    if same2(h, e, q): return 1
    return sum(occ(h, c, q) for c in kids(e))

def names(e):
    return sorted({n.name for n in nodes(e) if type(n).__name__ == "Symbol"})

def templates(tier):
    warnings.simplefilter("ignore")
    T = TL()
    X = sp()
    import simpy.regex as RX, simpy.utils as U
    qk = tier == "quick"
    x, y, z, w = S("x"), S("y"), S("z"), S("w")
    E = {
        "num": lambda h, t: R(h.q("c" + t)), "x": lambda h, t: x, "ax": lambda h, t: h.q("a" + t) * x, "x+y": lambda h, t: x + h.q("a" + t) * y, "x-y": lambda h, t: x - y + R(h.q("b" + t)), "x/y": lambda h, t: h.q("a" + t) * x / y, "xn": lambda h, t: x ** R(h.q("n" + t)), "yx": lambda h, t: y ** x, "2^x": lambda h, t: R(h.q("a" + t, pos=True)) ** (x + z), "xyz": lambda h, t: x * y ** 2 * z ** R(h.i("n" + t, -2, 2)), "lin3": lambda h, t: (x + y) ** 3 / (z - R(h.q("b" + t))), "sin": lambda h, t: X.sin(h.q("a" + t, nz=True) * x + y) ** 2, "nest": lambda h, t: X.cos(X.sin(x) + X.tan(X.sin(x))), "ln": lambda h, t: X.log(x * y + R(h.q("a" + t))), "logb": lambda h, t: X.log(x, y) + x, "log2": lambda h, t: X.log(x + z, 2) * h.q("a" + t), "abs": lambda h, t: X.Abs(x - R(h.q("b" + t))), "asin": lambda h, t: X.asin(x) + X.atan(y / z), "sec": lambda h, t: X.sec(x) * X.csc(y) + X.cot(z), "e^": lambda h, t: X.e ** (h.q("a" + t) * x) * y, "pi": lambda h, t: X.pi * x + X.e, "fl": lambda h, t: X.Float(0.5) * x + z, "rep": lambda h, t: x + x ** 2 + X.sin(x) + X.sin(x) ** 2 * X.log(x), "sqrt": lambda h, t: X.sqrt(x) + X.sqrt(2) * y, "acos": lambda h, t: X.acos(x / y) * X.sqrt(z), "deep": lambda h, t: X.log(X.log(X.log(X.Abs(x + y) + R(h.q("b" + t))))), "pp": lambda h, t: (x ** y) ** z + x ** (y * z), "inf": lambda h, t: X.inf * x + y, "cst": lambda h, t: X.sqrt(2) + X.pi * R(h.q("c" + t)),
    }
    COMB = {"": lambda a, b: a, "+": lambda a, b: a + b, "*": lambda a, b: a * b, "^": lambda a, b: (a + y) ** (b + x), "in": lambda a, b: X.sin(a + X.log(b + 2))}
    cases = [(a, "", "") for a in E]
    prs = list(itertools.product(E, E, ("+", "*", "^", "in")))
    cases += (random.Random(3).sample(prs, 90) if qk else prs)
    CLS = [X.Symbol, X.Rat, X.Float, X.Pi, X.E, X.Infinity, X.Sum, X.Prod, X.Power, X.log, X.Abs, X.sin, X.cos, X.tan, X.sec, X.csc, X.cot, X.asin, X.acos, X.atan, X.TrigFunction, X.Num, X.Expr, X.SingleFunc]
    for a, b, c in cases:
        def f(h, a=a, b=b, c=c):
            SYM[0] = h.sym
            p = E[a](h, "0")
            q = E[b](h, "1") if b else None
            h.seed_models()
            try: e = COMB[c](p, q)
            except (ZeroDivisionError, NotImplementedError): return
            ns = names(e)
            got = [s.name for s in e.symbols()]
            h.true(all(type(s).__name__ == "Symbol" for s in e.symbols()) and sorted(got) == ns, "symbols()", lambda: "%s of %s" % (got, h.show(e)))
            for s in ("x", "y", "z", "w", "xy", "e"):
                h.true(bool(e.contains(S(s))) == (s in ns), "contains(%s)" % s, lambda: h.show(e))
            ty = [type(n) for n in nodes(e)]
            for k in CLS:
                want = any(issubclass(t, k) for t in ty)
                h.true(bool(e.has(k)) == want, "has(%s)" % k.__name__, lambda: h.show(e))
                h.true(bool(RX.contains_cls(e, k)) == want, "contains_cls(%s)" % k.__name__, lambda: h.show(e))
            def top(n, k):
                return 1 if issubclass(type(n), k) else sum(top(m, k) for m in kids(n))
            h.true(RX.general_count(e, lambda n: isinstance(n, X.TrigFunction)) == top(e, X.TrigFunction), "general_count", lambda: h.show(e))
            h.true(bool(RX.general_contains(e, lambda n: isinstance(n, X.Power))) == (X.Power in ty), "general_contains", lambda: h.show(e))
            h.true(U.count_symbols(e) == sum(1 for t in ty if t is X.Symbol), "count_symbols", lambda: h.show(e))
        T.add("walk:%s%s%s" % (a, c, b))(f)
    # counting occurrences
    Q = {
        "x": lambda h: x, "y": lambda h: y, "w": lambda h: w, "sin x": lambda h: X.sin(x), "num": lambda h: R(h.q("m")), "x+y": lambda h: x + h.q("m") * y, "x^n": lambda h: x ** R(h.q("m")), "ln x": lambda h: X.log(x), "mx": lambda h: h.q("m", nz=True) * x, "2": lambda h: R(2), "-1": lambda h: R(-1), "pi": lambda h: X.pi, "e": lambda h: X.e, "cos": lambda h: X.cos(h.q("m") * x), "0.5": lambda h: X.Float(0.5), "xy": lambda h: x * y, "logb": lambda h: X.log(x, y),
    }
    ks = [k for k in E if k != "num"]
    prs = list(itertools.product(ks, Q))
    for a, qn in (random.Random(4).sample(prs, 130) if qk else prs):
        def f(h, a=a, qn=qn):
            SYM[0] = h.sym
            e = E[a](h, "0")
            q = Q[qn](h)
            h.seed_models()
            want = occ(h, e, q)
            ok, r = h.run(lambda: RX.count(e, q), "count")
            if ok: h.true(r == want, "count", lambda: "%s in %s: %s, expected %s" % (h.show(q), h.show(e), r, want))
            ok, r = h.run(lambda: RX.count(e * 2 + X.sin(q), q), "count")
            big = e * 2 + X.sin(q)
            want = occ(h, big, q)
            if ok: h.true(r == want, "count in a sum", lambda: "%s in %s: %s, expected %s" % (h.show(q), h.show(big), r, want))
        T.add("count:%s in %s" % (qn, a))(f)
    for a in E:
        def f(h, a=a):
            SYM[0] = h.sym
            e = E[a](h, "0")
            h.seed_models()
            for s in list(nodes(e)):
                want = occ(h, e, s)
                r = RX.count(e, s)
                h.true(r == want and r >= 1, "count of a part", lambda: "%s in %s: %s, expected %s" % (h.show(s), h.show(e), r, want))
        T.add("parts:%s" % a)(f)
    # equality up to renaming
    def ren(e, m):
        """independent renaming (rebuilds through the public constructors)"""
        n = type(e).__name__
        if n == "Symbol": return S(m.get(e.name, e.name))
        ks_ = [ren(c, m) for c in kids(e)]
        if not ks_: return e
        if n in ("Sum", "Prod"): return type(e)(ks_)
        if n == "Power": return X.Power(*ks_)
        if n == "log": return X.log(*ks_)
        return type(e)(ks_[0])
    def mut(h, e):
        """the expression with one coefficient changed"""
        return e + h.q("d", nz=True) * X.cos(y)
    for a in E:
        for v, u in (("x", "w"), ("x", "x"), ("x", "a"), ("y", "w"), ("z", "b"), ("x", "y"), ("y", "x"), ("x", "zz")) if not qk else (("x", "w"), ("y", "a"), ("x", "y"), ("x", "zz"), ("x", "x")):
            def f(h, a=a, v=v, u=u):
                SYM[0] = h.sym
                e = E[a](h, "0")
                h.seed_models()
                ns = names(e)
                r = ren(e, {v: u})
                if v != u and u in ns:
                    # renaming would merge two variables; a swap is no renaming of one variable either
                    if v in ns:
                        ok, g = h.run(lambda: U.eq_with_var((e, S(v)), (r, S(u))), "eq_with_var")
                        if ok: h.true(not g, "merging two variables", lambda: "%s ~ %s" % (h.show(e), h.show(r)))
                        sw = ren(e, {v: u, u: v})
                    return
                ok, g = h.run(lambda: U.eq_with_var((e, S(v)), (r, S(u))), "eq_with_var")
                if ok: h.true(bool(g), "renamed expression", lambda: "(%s, %s) ~ (%s, %s)" % (h.show(e), v, h.show(r), u))
                ok, g = h.run(lambda: U.eq_with_var((r, S(u)), (e, S(v))), "eq_with_var")
                if ok: h.true(bool(g), "renamed back", lambda: "(%s, %s) ~ (%s, %s)" % (h.show(r), u, h.show(e), v))
                if v != u and v in ns:
                    # the same expression with two different variables distinguished, both occurring in neither
                    ok, g = h.run(lambda: U.eq_with_var((e, S(v)), (e, S(u))), "eq_with_var")
                    if ok: h.true(not g, "not renamed", lambda: "(%s, %s) ~ (same, %s)" % (h.show(e), v, u))
                m = mut(h, r)
                ok, g = h.run(lambda: U.eq_with_var((e, S(v)), (m, S(u))), "eq_with_var")
                if ok: h.true(not g, "different expressions", lambda: "(%s, %s) ~ (%s, %s)" % (h.show(e), v, h.show(m), u))
            T.add("rename:%s:%s->%s" % (a, v, u))(f)
    # two independent coefficient sets: equal exactly when every coefficient agrees
    for a in ("ax", "x+y", "x-y", "x/y", "xn", "sin", "ln", "log2", "abs", "e^", "2^x", "deep", "lin3"):
        def f(h, a=a):
            SYM[0] = h.sym
            e, g = E[a](h, "0"), E[a](h, "1")
            h.seed_models()
            r = ren(g, {"x": "w"})
            ok, got = h.run(lambda: U.eq_with_var((e, x), (r, w)), "eq_with_var")
            want = same2(h, ren(e, {"x": "w"}), r)
            if ok: h.true(bool(got) == want, "coefficients", lambda: "(%s, x) ~ (%s, w)" % (h.show(e), h.show(r)))
        T.add("coeffs:%s" % a)(f)
    return T
