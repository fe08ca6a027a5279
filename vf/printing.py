"""templates shared by C17 (repr) and C18 (latex)"""
from .tpl import *
from . import textread
import random, re, warnings

def value_of(text):
    """the symbolic integer behind a token"""
    from . import sym as SY
    for v, t in SY.ENG.tokens:
        if t == text: return SY.mkq(v)
    raise textread.Unreadable("unknown token " + text)

# expressions with no further holes
def atoms(X):
    x, y, ab = S("x"), S("y"), S("ab")
    return {
        "c": lambda h, t: R(h.q("c" + t)), "x": lambda h, t: x, "ab": lambda h, t: ab, "pi": lambda h, t: X.pi, "e": lambda h, t: X.e,
        "ax": lambda h, t: h.q("a" + t) * x, "x+b": lambda h, t: x + R(h.q("b" + t)), "x-y": lambda h, t: x - y, "ax+by": lambda h, t: h.q("a" + t) * x + h.q("b" + t) * y,
        "x^n": lambda h, t: x ** R(h.q("n" + t)), "ax^n": lambda h, t: h.q("a" + t) * x ** R(h.q("n" + t)), "x^y": lambda h, t: x ** y, "x^(ay)": lambda h, t: x ** (h.q("a" + t) * y),
        "2^(ax)": lambda h, t: Fraction(2) ** (h.q("a" + t) * x) if False else R(2) ** (h.q("a" + t) * x), "c^x": lambda h, t: R(h.q("c" + t, pos=True)) ** x, "e^(ax)": lambda h, t: X.e ** (h.q("a" + t) * x),
        "a/x": lambda h, t: h.q("a" + t, nz=True) / x, "a/(x+b)": lambda h, t: h.q("a" + t, nz=True) / (x + R(h.q("b" + t))), "x/y": lambda h, t: x / y, "axy^n": lambda h, t: h.q("a" + t) * x * y ** R(h.i("n" + t, -2, 2)),
        "sqrt x": lambda h, t: X.sqrt(x), "sqrt(x+b)": lambda h, t: X.sqrt(x + R(h.q("b" + t))), "a/sqrt": lambda h, t: h.q("a" + t, nz=True) / X.sqrt(x + R(h.q("b" + t))),
        "(x+a)(y+b)": lambda h, t: (x + R(h.q("a" + t, nz=True))) * (y + R(h.q("b" + t, nz=True))), "x(y+b)": lambda h, t: x * (y + R(h.q("b" + t, nz=True))),
        "(x+a)/(y+b)": lambda h, t: (x + R(h.q("a" + t, nz=True))) / (y + R(h.q("b" + t, nz=True))), "(x+a)^-1 y^n": lambda h, t: y ** R(h.q("n" + t, nz=True)) / (x + R(h.q("a" + t, nz=True))),
        "sin": lambda h, t: X.sin(x), "a cos": lambda h, t: h.q("a" + t) * X.cos(x), "tan ax": lambda h, t: X.tan(h.q("a" + t, nz=True) * x), "asin": lambda h, t: X.asin(x), "atan": lambda h, t: X.atan(h.q("a" + t, nz=True) * x), "sec csc": lambda h, t: X.sec(x) * X.csc(y), "cot": lambda h, t: X.cot(x), "acos": lambda h, t: X.acos(x),
        "ln": lambda h, t: X.log(x), "ln(ax)": lambda h, t: X.log(h.q("a" + t, pos=True) * x), "log2": lambda h, t: X.log(x, 2), "logc": lambda h, t: X.log(x, R(h.q("c" + t, pos=True))), "logy": lambda h, t: X.log(x, y),
        "|x|": lambda h, t: X.Abs(x), "|x+b|": lambda h, t: X.Abs(x + R(h.q("b" + t))), "||x|+b|": lambda h, t: X.Abs(X.Abs(x) + R(h.q("b" + t))), "a|x||y+b|": lambda h, t: h.q("a" + t) * X.Abs(x) * X.Abs(y + R(h.q("b" + t))),
        "sqrt c": lambda h, t: X.sqrt(R(h.choose(9, "k" + t) + 2)), "2^(n/3)": lambda h, t: R(2) ** R(h.frac("n" + t, 3, -4, 4)), "(2/3)^(n/3)": lambda h, t: R(F(2, 3)) ** R(h.frac("n" + t, 3, -4, 4)), "-1^(n/4)": lambda h, t: R(-1) ** R(h.frac("n" + t, 4, 1, 3)),
        "a pi": lambda h, t: h.q("a" + t) * X.pi, "e pi": lambda h, t: X.e * X.pi ** R(h.i("n" + t, -2, 2)), "fl": lambda h, t: X.Float(0.25), "-fl": lambda h, t: X.Float(-1.5), "fl x": lambda h, t: X.Float(4.0) * x, "-fl x": lambda h, t: X.Float(-4.0) * x, "a ab": lambda h, t: h.q("a" + t) * ab * x,
        "tiny": lambda h, t: X.Float(2.0 ** -20) * x, "huge": lambda h, t: X.Float(-2e22), "ab^n": lambda h, t: ab ** R(h.q("n" + t)), "sum3": lambda h, t: h.q("a" + t) * x ** 2 + h.q("b" + t) * x + R(h.q("c" + t)),
    }

def wraps(X):
    x, y, ab = S("x"), S("y"), S("ab")
    return {
        "sin": lambda h, t, e: X.sin(e), "asec": lambda h, t, e: X.atan(e), "ln": lambda h, t, e: X.log(e), "log3": lambda h, t, e: X.log(e, 3), "log_": lambda h, t, e: X.log(y, e), "abs": lambda h, t, e: X.Abs(e), "sqrt": lambda h, t, e: X.sqrt(e),
        "1/sqrt": lambda h, t, e: 1 / X.sqrt(e), "^n": lambda h, t, e: e ** R(h.i("m" + t, -3, 3)), "^q": lambda h, t, e: e ** R(h.q("m" + t)), "^z": lambda h, t, e: e ** S("z"), "^1/z": lambda h, t, e: e ** (1 / S("z")), "^-z": lambda h, t, e: e ** (-S("z")),
        "^n/3": lambda h, t, e: e ** R(h.frac("m" + t, 3, -4, 4)), "^n/4": lambda h, t, e: e ** R(h.frac("m" + t, 4, -3, 3)), "z^": lambda h, t, e: S("z") ** e, "3^": lambda h, t, e: R(3) ** e, "c^": lambda h, t, e: R(h.q("m" + t, pos=True)) ** e, "e^": lambda h, t, e: X.e ** e, "fl^": lambda h, t, e: X.Float(1.5) ** e, "-2^": lambda h, t, e: R(-2) ** e, "(1/2)^": lambda h, t, e: R(F(1, 2)) ** e, "ab^": lambda h, t, e: ab ** e,
        "m*": lambda h, t, e: h.q("m" + t) * e, "z*": lambda h, t, e: S("z") * e, "neg": lambda h, t, e: -e, "/z": lambda h, t, e: e / S("z"), "m/": lambda h, t, e: h.q("m" + t, nz=True) / e, "z/": lambda h, t, e: S("z") / e, "z-": lambda h, t, e: S("z") - e, "+m": lambda h, t, e: e + R(h.q("m" + t)), "+z": lambda h, t, e: e + S("z"), "-mz": lambda h, t, e: e - h.q("m" + t) * S("z"),
        "*(z+m)": lambda h, t, e: e * (S("z") + R(h.q("m" + t, nz=True))), "/(z+m)": lambda h, t, e: e / (S("z") + R(h.q("m" + t, nz=True))), "/(z(z+m))": lambda h, t, e: e / (S("z") * (S("z") + R(h.q("m" + t, nz=True)))), "*fl": lambda h, t, e: e * X.Float(0.5), "*pi": lambda h, t, e: e * X.pi, "m*1/sin": lambda h, t, e: h.q("m" + t) * e / X.sin(S("z")), "|z|*": lambda h, t, e: X.Abs(S("z")) * e, "*ab": lambda h, t, e: e * ab,
    }

def make(tier, reader, printer, what):
    warnings.simplefilter("ignore")
    T = TL()
    X = sp()
    A, W = atoms(X), wraps(X)
    def check(h, build, z=False):
        ok, e = h.run(lambda: build(h), "building", allow=(Exception,))
        if not ok or not isinstance(e, X.Expr): return
        if infinite(e): return
        ok, s = h.run(lambda: printer(e), what)
        if not ok: return
        if not h.true(isinstance(s, str), what + " gives text", lambda: type(s).__name__): return
        try:
            ref = reader(str(s), value_of).read()
        except textread.Unreadable as ex:
            h.true(False, "the text can be read", "%s: %s" % (s, ex))
            return
        if z:
            k = (2, 3, -1, F(1, 3))[h.choose(4, "zval")]
            return h.equal(("subst", ref, {"z": k}), ("subst", e, {"z": k}), "the text denotes the expression at one value of z", strict=True)
        h.equal(ref, e, "the text %s" % s if not h.sym else "the text denotes the expression", strict=True)
        if h.fails and h.sym: h.fails[-1] = (h.fails[-1][0], "text %s; %s" % (s, h.fails[-1][1])) + tuple(h.fails[-1][2:])
    def add(name, build, **o):
        if tier == "quick" and not name.startswith("atom"): o.setdefault("paths", 40)
        T.add(name, tok="print", **o)(lambda h: check(h, build))
        if "^z" in name or "^-z" in name: T.add(name + " at z", tok="print", **o)(lambda h: check(h, build, True))
    for k, f in A.items():
        add("atom:" + k, lambda h, f=f: f(h, "0"))
    for k, f in A.items():
        for w, g in W.items():
            add("%s:%s" % (w, k), lambda h, f=f, g=g: g(h, "9", f(h, "0")))
    rng = random.Random(7)
    aks, wks = sorted(A), sorted(W)
    seen = set()
    n2 = 260 if tier == "quick" else 4000
    while len(seen) < n2:
        z = (rng.choice(wks), rng.choice(wks), rng.choice(aks))
        if z in seen: continue
        seen.add(z)
        add("%s:%s:%s" % z, lambda h, z=z: W[z[0]](h, "8", W[z[1]](h, "9", A[z[2]](h, "0"))))
    n3 = 120 if tier == "quick" else 1500
    seen = set()
    while len(seen) < n3:
        z = tuple(rng.choice(aks) for _ in range(rng.choice((2, 2, 3)))) + (rng.choice("+*-/"),)
        if z in seen: continue
        seen.add(z)
        def b(h, z=z):
            es = [A[k](h, str(i)) for i, k in enumerate(z[:-1])]
            r = es[0]
            for o in es[1:]:
                r = r + o if z[-1] == "+" else r * o if z[-1] == "*" else r - o if z[-1] == "-" else r / o
            return r
        add("op%s:%s" % (z[-1], ",".join(z[:-1])), b)
    n4 = 120 if tier == "quick" else 1500
    seen = set()
    while len(seen) < n4:
        z = (rng.choice(wks), rng.choice(aks), rng.choice(aks), rng.choice("+*/"))
        if z in seen: continue
        seen.add(z)
        def b(h, z=z):
            p, q = A[z[1]](h, "0"), A[z[2]](h, "1")
            return W[z[0]](h, "9", p + q if z[3] == "+" else p * q if z[3] == "*" else p / q)
        add("%s:(%s%s%s)" % (z[0], z[1], z[3], z[2]), b)
    return T

from .harness import infinite
