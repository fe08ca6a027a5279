from ..tpl import *
from .c13 import integrands, has_inf
import random, warnings

BOUNDS = ("integrate(f, x) run from its public entry point on the integrand families of C13 (up to three symbolic rational coefficients or exponents, a second symbol in some) and on families built around the repository's test integrals; "
          "the search is cut after a fixed number of cycles instead of two seconds of clock time, so that the same integrand always takes the same path")
NOTE = "The derivative of the result is taken by the verifier's own calculus on the denotation, not by simpy's diff; a search that gives up (None) satisfies the property."

PER = {"quick": 5, "thorough": 240}

CYCLES = {"quick": 9, "thorough": 25}

def factors():
    """factors for random products and quotients"""
    X = sp()
    x, y = S("x"), S("y")
    e = X.e
    b = lambda h: h.q("b", nz=True)
    return {
        "x": lambda h: x, "x^2": lambda h: x ** 2, "x^-2": lambda h: x ** -2, "sqrt": lambda h: X.sqrt(x), "x+b": lambda h: x + b(h), "1/(x+b)": lambda h: 1 / (x + b(h)), "(x+b)^-2": lambda h: (x + b(h)) ** -2, "1/(x2+b)": lambda h: 1 / (x ** 2 + b(h)), "sqrt(x+b)": lambda h: X.sqrt(x + b(h)),
        "sin": lambda h: X.sin(x), "cos": lambda h: X.cos(x), "sin bx": lambda h: X.sin(b(h) * x), "cos bx": lambda h: X.cos(b(h) * x), "tan": lambda h: X.tan(x), "sec": lambda h: X.sec(x), "csc": lambda h: X.csc(x), "cot": lambda h: X.cot(x), "sec2": lambda h: X.sec(x) ** 2, "sin2": lambda h: X.sin(x) ** 2, "1/sin": lambda h: 1 / X.sin(x), "1+cos": lambda h: 1 + b(h) * X.cos(x), "e": lambda h: e ** x, "e^bx": lambda h: e ** (b(h) * x), "1/(e+b)": lambda h: 1 / (e ** x + b(h)), "ln": lambda h: X.log(x), "ln bx": lambda h: X.log(b(h) * x), "1/ln": lambda h: 1 / X.log(x), "atan": lambda h: X.atan(x), "y": lambda h: y, "sin xy": lambda h: X.sin(x * y), "abs": lambda h: X.Abs(x), "sin x2": lambda h: X.sin(x ** 2), "e x2": lambda h: e ** (b(h) * x ** 2),
    }

class Clock:
    """time.time() for the integrator: one tick per cycle"""
    def __init__(self, limit): self.n, self.step = 0, 2.0 / limit
    def time(self):
        self.n += 1
        return self.n * self.step
    def perf_counter(self): return self.time()
    def monotonic(self): return self.time()

class Keep:
    def __init__(self): self.root = None
    def log(self, integrand, t, root): self.root = root

def extra():
    X = sp()
    x, y = S("x"), S("y")
    sin, cos, tan, sec, csc, cot, log, sqrt, e = X.sin, X.cos, X.tan, X.sec, X.csc, X.cot, X.log, X.sqrt, X.e
    a = lambda h: h.q("a", nz=True)
    b = lambda h: h.q("b", nz=True)
    c = lambda h: h.q("c", nz=True)
    return {
        "poly": lambda h: a(h) * x ** 3 + R(h.q("b")) * x + R(h.q("c")), "ax^n+bx^m": lambda h: a(h) * x ** R(h.q("n")) + b(h) * x ** R(h.q("m")), "a/x+b": lambda h: a(h) / x + R(h.q("b")), "(ax+b)/x": lambda h: (a(h) * x + b(h)) / x, "(x+a)/x^n": lambda h: (x + a(h)) * x ** R(h.q("n")), "a tan": lambda h: a(h) * tan(x), "a cot": lambda h: a(h) * cot(b(h) * x), "sec(ax)": lambda h: sec(a(h) * x), "csc(ax)": lambda h: csc(a(h) * x), "a sec^2": lambda h: b(h) * sec(a(h) * x) ** 2,
        "sec3": lambda h: a(h) * sec(x) ** 3, "sec tan b": lambda h: sec(a(h) * x) * tan(a(h) * x), "csc cot": lambda h: csc(x) * cot(x) * a(h), "csc2": lambda h: csc(a(h) * x) ** 2, "b csc2": lambda h: b(h) * csc(x) ** 2, "e^(-ax)": lambda h: e ** (-(a(h) * x)), "a^x": lambda h: R(h.q("a", pos=True)) ** x, "a^bx": lambda h: R(h.q("a", pos=True)) ** (b(h) * x), "1/(x2+a2)": lambda h: 1 / (x ** 2 + a(h) ** 2), "1/sqrt(a2-x2)": lambda h: 1 / sqrt(R(4) - a(h) * x ** 2),
        "x/(ax+b)": lambda h: x / (a(h) * x + b(h)), "1/(x2-a2)": lambda h: 1 / (x ** 2 - a(h) ** 2), "(ax+b)/(x2+c)": lambda h: (a(h) * x + b(h)) / (x ** 2 + 1), "sin2(ax)": lambda h: sin(a(h) * x) ** 2, "cos2(ax+b)": lambda h: cos(a(h) * x + b(h)) ** 2, "tan2(ax)": lambda h: tan(a(h) * x) ** 2, "sin3(ax)": lambda h: sin(a(h) * x) ** 3, "x2 e^ax": lambda h: x ** 2 * e ** (a(h) * x), "x2 sin ax": lambda h: x ** 2 * sin(a(h) * x), "ln(ax)": lambda h: log(a(h) * x), "x ln ax": lambda h: x * log(a(h) * x), "ln(ax)^2": lambda h: log(a(h) * x) ** 2, "e^ax sin bx": lambda h: e ** (a(h) * x) * sin(b(h) * x), "a x e^(bx2)": lambda h: a(h) * x * e ** (b(h) * x ** 2), "x3 e^x2": lambda h: x ** 3 * e ** (x ** 2) * a(h), "x sqrt(x+a)": lambda h: x * sqrt(x + a(h)), "x/sqrt(x2+a)": lambda h: x / sqrt(b(h) * x ** 2 + a(h)), "1/(e^x+a)": lambda h: e ** x / (a(h) * e ** x + b(h)), "1/(x ln x)": lambda h: a(h) / (x * log(x)), "cos/sin^n": lambda h: cos(x) / sin(x) ** R(h.i("n", 1, 3)), "sin/(a+cos)": lambda h: sin(x) / (a(h) + b(h) * cos(x)), "asin(ax)": lambda h: X.asin(a(h) * x), "atan(ax)": lambda h: X.atan(a(h) * x), "acos(x/2)": lambda h: X.acos(x / 2) * a(h), "y const": lambda h: sin(y) * a(h), "xy a": lambda h: a(h) * x * y + y ** 2, "(x+y)^n": lambda h: (x + y) ** R(h.q("n")), "1/(x+y)": lambda h: a(h) / (x + y), "e^xy": lambda h: e ** (x * y), "sin(xy)": lambda h: sin(a(h) * x * y), "y^x": lambda h: y ** (a(h) * x), "x^y": lambda h: x ** (y + R(h.q("a"))), "1/(y x+1)": lambda h: 1 / (y * x + a(h)), "c0": lambda h: R(h.q("a")), "sin cos ax": lambda h: sin(a(h) * x) * cos(a(h) * x), "abs": lambda h: X.Abs(x) * a(h), "log2": lambda h: log(a(h) * x, 2), "tan4": lambda h: tan(a(h) * x) ** 4, "sec4": lambda h: sec(a(h) * x) ** 4, "sec3tan": lambda h: sec(x) ** 3 * tan(x) * a(h), "sec2 ax tan ax": lambda h: sec(a(h) * x) ** 2 * tan(a(h) * x), "(sin+cos)^2": lambda h: (a(h) * sin(x) + b(h) * cos(x)) ** 2, "(1+e^x)^2": lambda h: (a(h) + e ** x) ** 2, "(x+1)/(x2+2x+5)": lambda h: (a(h) * x + 1) / (x ** 2 + 2 * x + 5), "1/(ax2+bx+c)": lambda h: 1 / (x ** 2 + a(h) * x + b(h)), "x2/(1+x2)": lambda h: a(h) * x ** 2 / (1 + x ** 2), "x4/(1+x2)": lambda h: (x ** 4 + a(h)) / (1 + x ** 2), "2x+a/(x-1)(x-2)": lambda h: (2 * x + a(h)) / ((x - 1) * (x - 2)), "1/x(x+a)^2": lambda h: 1 / (x * (x + a(h))), "1/((x+1)(x+2))": lambda h: a(h) / ((x + 1) * (x + 2)), "sqrt(1-x2)": lambda h: a(h) * sqrt(1 - x ** 2), "x cos2": lambda h: x * cos(x) * a(h) + sin(x) * b(h), "e^sqrt": lambda h: e ** (a(h) * sqrt(x)), "sin sqrt": lambda h: sin(sqrt(x)) * a(h), "x^3 sin(x^2)": lambda h: x ** 3 * sin(a(h) * x ** 2), "1/(1+sqrt)": lambda h: 1 / (a(h) + sqrt(x)), "float": lambda h: X.Float(0.5) * x + X.Float(0.25) * sin(x), "fx": lambda h: e ** (X.Float(0.5) * x) * a(h), "pi": lambda h: sin(X.pi * x) * a(h), "dup": lambda h: sin(x) * e ** cos(x) * a(h), "sincos5": lambda h: sin(x) ** 2 * cos(x) ** 3 * a(h), "sin4": lambda h: sin(x) ** 4 * a(h),
    }

def setup(h, tier):
    import importlib
    IN = importlib.import_module("simpy.integration")
    IN.time = Clock(CYCLES[tier])
    k = Keep()
    IN.Integration.logger = k
    return k

def branchy(root):
    """does the solution go through u = sin x or u = cos x (known finding, valid on half of the line)?"""
    if root is None: return False
    X = sp()
    def w(n):
        if any(c.transform.__class__.__name__ == "TrigUSub2" and not contains(c.transform._u, X.tan(n.var)) for c in n.children): return True
        return any(w(c) for c in n.children if c.solution is not None)
    return w(root)

def contains(e, v):
    return e == v or any(contains(c, v) for c in e.children())

def templates(tier):
    warnings.simplefilter("ignore")
    T = TL()
    import importlib
    IN = importlib.import_module("simpy.integration")
    x = S("x")
    I = dict(("c13:" + k, v) for k, v in integrands(tier).items())
    I.update(extra())
    fac = factors()
    rng = random.Random(12)
    pairs = [(p, q) for p in sorted(fac) for q in sorted(fac) if p <= q]
    must = [("tan", "x^-2"), ("sec2", "1/(x+b)"), ("sin", "x^-2"), ("e", "x^-2"), ("ln", "x^-2"), ("cot", "x^-2"), ("atan", "x^-2"), ("cos", "sec2")]
    for p, q in must + ([z for z in rng.sample(pairs, 60)] if tier == "quick" else pairs):
        I["%s*%s" % (p, q)] = lambda h, p=p, q=q: h.q("a", nz=True) * fac[p](h) * fac[q](h)
    for _ in range(20 if tier == "quick" else 250):
        p, q, r, w = (rng.choice(sorted(fac)) for _ in range(4))
        I["%s*(%s+%s)" % (p, q, r)] = lambda h, p=p, q=q, r=r: fac[p](h) * (fac[q](h) + h.q("a", nz=True) * fac[r](h))
        I["%s+%s/%s" % (p, q, r)] = lambda h, p=p, q=q, r=r: fac[p](h) + h.q("a", nz=True) * fac[q](h) / fac[r](h)
    for k, mk in I.items():
        def f(h, mk=mk):
            e = mk(h)
            h.seed_models()
            kp = setup(h, tier)
            ok, r = h.run(lambda: IN.integrate(e, x), "integrate", allow=(RecursionError,))
            if not ok: return
            if r is None:
                h.true(True, "not integrated")
                return
            h.true(has_inf(e) or not has_inf(r), "the result is finite", lambda: h.show(r))
            if branchy(kp.root): h.known("C12-trigsub-branch")
            h.equal(e, ("D", r, "x"), "integrate", strict=False)
        T.add(k)(f)
    return T
