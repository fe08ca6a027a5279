from ..tpl import *
import itertools, random, warnings

BOUNDS = ("pairs (quick) and triples of the listed operand shapes with arbitrary rational coefficients and integer exponents -3..3; the listed operations, "
          "each run twice in sequence on the same objects; integrate on listed small integrands")
NOTE = ("An operand is compared with a copy of its structure taken before the operations that shares no list, cache or memo attribute with it; equality of numbers and of text "
        "is decided for all values.")

PER = {"quick": 25, "thorough": 300}

def shadow(e, _memo=None):
    """copy of the structure without any memo attribute"""
    X = sp()
    if isinstance(e, X.Num): return e
    n = object.__new__(type(e))
    for k, v in list(getattr(e, "__dict__", {}).items()):
        if k in ("_strictly_positive", "_key", "_is_multiple_terms"): n.__dict__[k] = v
        elif k.startswith("_"): continue
        elif isinstance(v, X.Expr): n.__dict__[k] = shadow(v)
        elif isinstance(v, list): n.__dict__[k] = [shadow(t) if isinstance(t, X.Expr) else t for t in v]
        else: n.__dict__[k] = v
    n.__dict__["_nesting_cache"] = {}
    return n

def same(a, b):
    """same structure, compared without the code under test"""
    X = sp()
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, X.Num): return bool(a.value == b.value) or bool(a.value != a.value and b.value != b.value)
    ka = {k: v for k, v in a.__dict__.items() if not k.startswith("_")}
    kb = {k: v for k, v in b.__dict__.items() if not k.startswith("_")}
    if set(ka) != set(kb): return False
    for k, v in ka.items():
        w = kb[k]
        if isinstance(v, X.Expr):
            if not (isinstance(w, X.Expr) and same(v, w)): return False
        elif isinstance(v, list):
            if not (isinstance(w, list) and len(v) == len(w)): return False
            if all(same(p, q) for p, q in zip(v, w)): continue
            if not SYM[0]: return False
            # the printed order of terms with symbolic numbers may have been chosen before the numbers were compared
            left = list(w)
            for p in v:
                for i, q in enumerate(left):
                    if same(p, q):
                        del left[i]
                        break
                else:
                    return False
        elif v != w: return False
    return True

SYM = [False]
def text(h, a, b):
    if not h.sym: return repr(a) == repr(b) and a.latex() == b.latex() if not a.has(sp().NaN) else True
    # the text is derived from the structure and the memoised numerator and denominator of products
    def walk(p, q):
        if isinstance(p, sp().Prod):
            try: n, d = p.numerator_denominator
            except Exception: return True
            n2, d2 = q.numerator_denominator
            if not same(n, n2) or not same(d, d2):
                if h.equal(("/", n, d), ("/", n2, d2), "numerator/denominator") is False: return False
        cp, cq = p.children(), q.children()
        return all(walk(u, v) for u, v in zip(cp, cq) if type(u) is type(v))
    return walk(a, b)

class Watch:
    def __init__(self, h):
        self.h, self.items = h, []
        SYM[0] = h.sym
    def add(self, e, nm):
        if isinstance(e, sp().Expr): self.items.append((e, shadow(e), nm))
        elif isinstance(e, list): self.items.append((e, list(e), nm))
        return e
    def check(self, after):
        for e, s, nm in self.items:
            if isinstance(e, list):
                if not self.h.true(len(e) == len(s) and all(p is q for p, q in zip(e, s)), "%s list changed by %s" % (nm, after)): return False
                continue
            if not self.h.true(same(e, s), "%s changed by %s" % (nm, after), lambda: "%s was %s" % (self.h.show(e), self.h.show(s))): return False
        return True
    def texts(self):
        for e, s, nm in self.items:
            if isinstance(e, list): continue
            if not self.h.true(text(self.h, e, s), "%s prints differently" % nm, lambda: "%s was %s" % (self.h.show(e), self.h.show(s))): return False
        return True

def OPS():
    X = sp()
    x, y = S("x"), S("y")
    from simpy.simplify import simplify
    import simpy.regex as Rx
    two = {
        "+": lambda a, b: a + b, "*": lambda a, b: a * b, "-": lambda a, b: a - b, "/": lambda a, b: a / b,
        "r+": lambda a, b: b + a, "r*": lambda a, b: b * a,
        "+self": lambda a, b: a + a, "*self": lambda a, b: a * a,
        "==": lambda a, b: a == b, "replace": lambda a, b: Rx.replace(a, b, y), "count": lambda a, b: Rx.count(a, b),
        "subs": lambda a, b: a.subs({"x": b}),
    }
    one = {
        "^2": lambda a: a ** 2, "^-1": lambda a: 1 / a, "sqrt": lambda a: X.sqrt(a), "neg": lambda a: -a, "abs": lambda a: X.Abs(a),
        "expandable": lambda a: a.expandable(), "expand": lambda a: a.expand() if a.expandable() else a,
        "diff": lambda a: a.diff(x), "subs": lambda a: a.subs({"x": y + 1}), "symbols": lambda a: sorted(s.name for s in a.symbols()),
        "contains": lambda a: a.contains(x), "has": lambda a: a.has(X.Power), "latex": lambda a: a.latex(), "repr": lambda a: repr(a),
        "nesting": lambda a: X.nesting(a, x), "factor": lambda a: a.factor() if isinstance(a, X.Sum) else a,
        "numden": lambda a: [repr(t) for t in a.numerator_denominator] if isinstance(a, X.Prod) else None,
        "rmconst": lambda a: X.remove_const_factor(a),
        "sin": lambda a: X.sin(a), "log": lambda a: X.log(a), "cmp": lambda a: (a.is_subtraction, a.is_int),
    }
    return one, two

def templates(tier):
    T = TL()
    X = sp()
    warnings.simplefilter("ignore")
    K = dict(MK)
    K["poly"] = lambda h, t: S("x") ** 2 + h.q("a" + t, nz=True) * S("x") + R(h.q("b" + t, nz=True))
    K["fact"] = lambda h, t: h.q("a" + t, pos=True) * S("x") * (S("x") + R(h.q("b" + t, nz=True))) ** 2
    K["rat"] = lambda h, t: (S("x") + 1) / (h.q("a" + t, nz=True) * S("x") * (S("y") + 2))
    K["trig"] = lambda h, t: h.q("a" + t, nz=True) * X.sin(S("x")) ** 2 + X.cos(S("x")) ** 2 * h.q("b" + t, nz=True)
    K["nest"] = lambda h, t: X.sqrt(S("x") * (S("y") + R(h.q("b" + t, nz=True))))
    K["numc"] = lambda h, t: h.q("a" + t, nz=True) * X.pi * X.sqrt(2)
    K["inf"] = lambda h, t: X.inf
    K["fsum"] = lambda h, t: S("x") + X.Float(0.5)
    one, two = OPS()
    def agree(h, r1, r2, nm):
        if isinstance(r1, X.Expr):
            if h.true(isinstance(r2, X.Expr) and same(r1, r2), "%s repeated" % nm, lambda: "%s then %s" % (h.show(r1), h.show(r2))):
                h.true(h.sym or r1.has(X.NaN) or bool(r1 == r2), "%s repeated ==" % nm)
        elif isinstance(r1, str) or r1 is None or isinstance(r1, (bool, int, list, tuple)):
            if isinstance(r1, str): return
            h.true(type(r1) is type(r2) and r1 == r2, "%s repeated" % nm, lambda: "%r then %r" % (r1, r2))
    def seq(names, ops1, ops2, nm, tok="token0"):
        def f(h):
            xs = [K[k](h, str(i)) for i, k in enumerate(names)]
            h.seed_models()
            W = Watch(h)
            for i, e in enumerate(xs): W.add(e, "operand %d" % i)
            first = {}
            for rnd in (0, 1):
                for o in list(ops1) + list(ops2):
                    try:
                        if o in ops2:
                            r = two[o](xs[0], xs[1])
                        else:
                            r = one[o](xs[0])
                    except (NotImplementedError, AssertionError, ZeroDivisionError, ValueError, TypeError, KeyError, OverflowError) as ex:
                        # what an operation supports is the subject of other properties; here it must only leave its operands alone
                        r = type(ex).__name__
                    if not W.check(o): return
                    if rnd == 0:
                        first[o] = W.add(r, "result of " + o)
                    else:
                        agree(h, first[o], r, o)
            W.texts()
        T.add("%s:%s" % (nm, "+".join(names)), tok=tok)(f)
    SHAPES = ["c", "x", "ax", "axn", "lin", "alin", "linn", "asin", "ex", "api", "ln", "inv", "absx", "xy", "fl", "r2", "neg", "poly", "fact", "rat", "trig", "nest", "numc", "fsum", "inf"]
    for k in SHAPES:
        seq([k], ["^2", "^-1", "neg", "expandable", "expand", "diff", "subs"], [], "one-a")
        seq([k], (["sqrt"] if k != "rat" else []) + ["abs", "symbols", "contains", "has", "latex", "repr", "nesting", "factor", "numden", "rmconst", "cmp"], [], "one-b")
        seq([k], ["sin", "log", "factor", "expand", "neg", "latex"], [], "one-c")
    rng = random.Random(5)
    pairs = [p for p in itertools.product(SHAPES, SHAPES)]
    if tier == "quick": pairs = rng.sample(pairs, 110)
    for a, b in pairs:
        seq([a, b], [], ["+", "*", "-", "r+"], "two-a")
        if tier != "quick" or rng.random() < .4: seq([a, b], [], ["/", "r*", "+self", "*self", "=="], "two-b")
        if tier != "quick" or rng.random() < .3: seq([a, b], ["repr"], ["replace", "count", "subs", "+"], "two-c")
    # a shared sub-expression inside larger ones, and the lists handed to the constructors
    for a, b in (pairs if tier != "quick" else rng.sample(pairs, 50)):
        def f(h, a=a, b=b):
            p, q = K[a](h, "0"), K[b](h, "1")
            h.seed_models()
            W = Watch(h)
            W.add(p, "p"); W.add(q, "q")
            l1, l2, l3 = [p, q, p], [p, q, q], [q, p, R(2)]
            W.add(l1, "list1"); W.add(l2, "list2"); W.add(l3, "list3")
            try:
                s = X.Sum(l1)
                W.add(s, "sum")
                if not W.check("Sum"): return
                m = X.Prod(l2)
                W.add(m, "product")
                if not W.check("Prod"): return
                X.Sum(l3); X.Prod(l3)
                if not W.check("Sum/Prod"): return
                t = s + m
                W.add(t, "sum+product")
                u = s * 2 + s
                agree(h, u, s * 2 + s, "2s+s")
                if not W.check("2s+s"): return
                v = t - m
                if not W.check("-"): return
                agree(h, v, t - m, "t-m")
            except (NotImplementedError, ZeroDivisionError, ValueError, TypeError, OverflowError):
                pass
            W.check("end")
            W.texts()
        T.add("shared:%s+%s" % (a, b))(f)
    # simplify and its parts, pattern matching, integration
    import simpy
    from simpy.simplify import simplify
    import simpy.regex as Rx
    x = S("x")
    def whole(nm, mk, op, **o):
        def f(h):
            e = mk(h)
            h.seed_models()
            W = Watch(h)
            W.add(e, "operand")
            try:
                r1 = op(e)
            except (NotImplementedError, AssertionError, ZeroDivisionError, ValueError, TypeError, KeyError) as ex:
                r1 = type(ex).__name__
            if not W.check(nm): return
            W.add(r1, "result")
            try:
                r2 = op(e)
            except (NotImplementedError, AssertionError, ZeroDivisionError, ValueError, TypeError, KeyError) as ex:
                r2 = type(ex).__name__
            if not W.check(nm + " again"): return
            agree(h, r1, r2, nm)
            W.texts()
        T.add(nm, **o)(f)
    for k in ("trig", "rat", "poly", "fact", "ln", "absx", "asin"):
        whole("simplify:" + k, lambda h, k=k: K[k](h, "0"), lambda e: simplify(e))
    whole("simplify:sec2", lambda h: h.q("a", nz=True) * X.sec(x) ** 2 + X.tan(x) ** 2 + 1, lambda e: simplify(e))
    whole("simplify:log", lambda h: X.log(h.q("a", pos=True) * x ** R(h.i("n", -3, 3))), lambda e: simplify(e))
    whole("match:sum", lambda h: h.q("a", nz=True) * X.tan(x) ** 2 + R(h.q("b", nz=True)), lambda e: Rx.eq(e, 1 + X.tan(Rx.any_) ** 2, up_to_factor=True, up_to_sum=True).get("success"))
    whole("match:prod", lambda h: h.q("a", nz=True) * X.sin(x) * X.sec(x), lambda e: Rx.eq(e, X.sin(Rx.any_) * X.sec(Rx.any_), up_to_factor=True).get("success"))
    def integ(e): return simpy.integrate(e, x)
    for nm, mk in (("axn", lambda h: h.q("a", nz=True) * x ** R(h.i("n", -2, 3))), ("poly", lambda h: x ** 2 + h.q("a") * x + 3), ("trig", lambda h: X.sin(h.q("a", nz=True) * x)),
                   ("exp", lambda h: X.e ** (h.q("a", nz=True) * x) + x), ("xe", lambda h: x * X.e ** x * h.q("a", nz=True)), ("sinsq", lambda h: h.q("a", nz=True) * X.sin(x) ** 2), ("frac", lambda h: h.q("a", nz=True) / (x + 1))):
        whole("integrate:" + nm, mk, integ)
        def bd(h, mk=mk):
            e = mk(h)
            a = R(h.q("lo", pos=True))
            h.seed_models()
            W = Watch(h)
            W.add(e, "integrand"); W.add(a, "limit")
            try: simpy.integrate(e, (x, a, a + 1))
            except (NotImplementedError, AssertionError, ZeroDivisionError, ValueError, TypeError, KeyError): pass
            W.check("integrate bounds")
            W.texts()
        T.add("bounds:" + nm)(bd)
    # numbers: comparisons and arithmetic leave shared constants alone
    @T.add("constants")
    def _(h):
        q = R(h.q("a"))
        h.seed_models()
        W = Watch(h)
        for c, nm in ((q, "q"), (X.pi, "pi"), (X.e, "e"), (X.inf, "inf")): W.add(c, nm)
        pv, ev = X.Pi.value, X.E.value
        for f in (lambda: q < X.pi, lambda: q == X.e, lambda: X.pi * q, lambda: q + X.e, lambda: -X.inf, lambda: abs(q), lambda: q.numerator, lambda: X.sin(q * X.pi), lambda: X.pi + X.pi, lambda: X.e ** q):
            f()
            if not W.check("constant op"): return
        h.true(X.Pi.value is pv and X.E.value is ev, "class constants")
    return T
