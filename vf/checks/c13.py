from ..tpl import *
from ..opq import Opaques
import itertools, random, warnings

BOUNDS = ("every safe transform, heuristic and Simplify on the listed integrand families (trigonometric, inverse trigonometric, polynomial, rational, exponential, logarithmic, roots, products of them; up to three symbolic rational coefficients or exponents, a second symbol in some), "
          "two-step combinations of integration by parts, and the look-up table; sub-solutions are arbitrary (an opaque function of the sub-problem's variable whose derivative is the sub-integrand)")
NOTE = "Derivatives of the assembled solution are taken by the verifier's own calculus on the denotation, not by simpy's diff."

PER = {"quick": 8, "thorough": 200}

def contains(e, v):
    return e == v or any(contains(c, v) for c in e.children())

def has_inf(e):
    X = sp()
    if isinstance(e, X.Float) and type(e.value) is float and (e.value != e.value or e.value in (float("inf"), float("-inf"))): return True
    return isinstance(e, (X.Infinity, X.NegInfinity)) or any(has_inf(c) for c in e.children())

def integrands(tier):
    X = sp()
    x, y = S("x"), S("y")
    sin, cos, tan, sec, csc, cot, log, sqrt, e = X.sin, X.cos, X.tan, X.sec, X.csc, X.cot, X.log, X.sqrt, X.e
    q = lambda h, n, **k: h.q(n, **k)
    a = lambda h: h.q("a", nz=True)
    b = lambda h: h.q("b", nz=True)
    I = {
        # products with constants, sums
        "ax": lambda h: a(h) * x, "ax^n": lambda h: a(h) * x ** R(q(h, "n")), "xy": lambda h: a(h) * x * y, "y sin": lambda h: y * sin(x), "pi x": lambda h: X.pi * x ** 2 * a(h), "sum": lambda h: a(h) * x + R(q(h, "b")), "sum3": lambda h: a(h) * x ** 2 + sin(x) + y, "sum e": lambda h: e ** x + b(h) / x, "sum y": lambda h: x * y + y ** 2 + a(h) * x, "y/x": lambda h: y / x, "const*": lambda h: sqrt(R(2)) * cos(x) * a(h), "log y": lambda h: log(y) * x, "y^2 x": lambda h: y ** 2 * x ** R(q(h, "n")), "x^y": lambda h: x ** y, "sum dup": lambda h: a(h) * sin(x) + b(h) * cos(x) + x ** 2,
        # products to expand
        "(x+a)(x+b)": lambda h: (x + R(q(h, "a"))) * (x + R(q(h, "b"))), "x(x+a)": lambda h: x * (x + a(h)), "(x+a)^2": lambda h: (x + R(q(h, "a"))) ** 2, "(x+a)^3 x": lambda h: (x + a(h)) ** 2 * x, "sin(x+1)": lambda h: (sin(x) + a(h)) * x, "y(x+a)": lambda h: y * (x + a(h)), "e(e+1)": lambda h: e ** x * (e ** x + a(h)),
        # rational
        "1/(x+a)(x+b)": lambda h: 1 / ((x + R(q(h, "a"))) * (x + R(q(h, "b")))), "nx+1/(x+a)x": lambda h: (a(h) * x + 1) / (x * (x + b(h))), "1/x2+ax": lambda h: b(h) / (x ** 2 + a(h) * x), "x2/(x+a)": lambda h: x ** 2 / (x + a(h)), "x3/(x2+a)": lambda h: (x ** 3 + R(q(h, "b"))) / (x ** 2 + a(h)), "x/(x+a)": lambda h: b(h) * x / (x + a(h)), "x/x2+a": lambda h: b(h) * x / (x ** 2 + a(h)), "1/(x2+a)": lambda h: 1 / (x ** 2 + a(h)), "1/quad": lambda h: 1 / (x ** 2 + a(h) * x + b(h)), "1/aquad": lambda h: 1 / (a(h) * x ** 2 + x + b(h)), "x/quad": lambda h: x / (x ** 2 + 2 * x + b(h)), "1/sqrt quad": lambda h: 1 / sqrt(x ** 2 + a(h) * x + b(h)), "1/sqrt -quad": lambda h: 1 / sqrt(a(h) * x - x ** 2 + 1), "1/quad2": lambda h: (x ** 2 + a(h) * x + 5) ** -2, "1/quad sin": lambda h: 1 / (sin(x) ** 2 + 2 * x + x ** 2 + a(h)), "x^3/(x^4+a)": lambda h: x ** 3 / (x ** 4 + a(h)), "x^n-1/(x^n+a)": lambda h: x ** R(h.i("n", 1, 4)) / sqrt(x ** R(h.i("m", 2, 5)) + a(h)), "1/(1+x2)": lambda h: a(h) / (1 + x ** 2), "1/(1-x2)": lambda h: a(h) / (1 - x ** 2), "1/sqrt(1-x2)": lambda h: a(h) / sqrt(1 - x ** 2), "x2/sqrt(1-x2)": lambda h: x ** 2 / sqrt(1 - x ** 2) * a(h), "sqrt(1-x2)": lambda h: sqrt(1 - x ** 2), "sqrt(x2-1)": lambda h: 1 / sqrt(x ** 2 - 1), "(1+x2)^n": lambda h: (1 + x ** 2) ** R(h.frac("n", 2, -5, 5)), "x2/(1+x2)^2": lambda h: a(h) * x ** 2 / (1 + x ** 2) ** 2, "-1-x2": lambda h: 1 / (-1 - x ** 2), "x2-1": lambda h: x / (x ** 2 - 1) + a(h), "(y+x)/x": lambda h: (x + y) / (x ** 2 + a(h)),
        # linear arguments
        "sin(ax)": lambda h: sin(a(h) * x), "sin(ax+b)": lambda h: b(h) * sin(a(h) * x + R(q(h, "c"))), "e^ax": lambda h: e ** (a(h) * x), "(ax+b)^n": lambda h: (a(h) * x + b(h)) ** R(q(h, "n")), "1/(ax+b)": lambda h: 1 / (a(h) * x + b(h)), "ln(ax+b)": lambda h: log(a(h) * x + b(h)), "sec2(ax)": lambda h: sec(a(h) * x) ** 2, "ax2": lambda h: 1 / (1 + a(h) * x ** 2), "sqrt ax2": lambda h: 1 / sqrt(R(9) - a(h) * x ** 2), "sqrt4": lambda h: 1 / sqrt(1 - a(h) * x ** 4) if 0 else sqrt(1 - a(h) * x ** 4), "2^ax": lambda h: R(2) ** (a(h) * x), "sin(xy)": lambda h: sin(x * y), "cos(x/y)": lambda h: cos(x / y) * a(h), "sin(x+y)": lambda h: sin(x + y), "y^(ax)": lambda h: y ** (a(h) * x), "(x/y)^n": lambda h: (x * y + 1) ** R(q(h, "n")), "(y x2)": lambda h: 1 / (1 + y * x ** 2), "two lin": lambda h: sin(a(h) * x) * cos(b(h) * x), "lin2": lambda h: (a(h) * x + 1) * sin(a(h) * x + 1), "lin mix": lambda h: sin(a(h) * x) + cos(a(h) * x) ** 2, "exp a": lambda h: e ** (a(h) * x + b(h)) * (a(h) * x + b(h)) ** 2, "x^3 coef": lambda h: e ** (a(h) * x ** 3), "sq coef": lambda h: sin(a(h) * x ** R(F(1, 2))) if 0 else cos(a(h) * sqrt(x)), "x^-1 coef": lambda h: sin(a(h) / x), "-x2": lambda h: e ** (-(x ** 2)), "1/(x+a)^2": lambda h: 1 / (x + a(h)) ** 2, "x/(x+a)^2": lambda h: x / (x + a(h)) ** 2, "x2/(x+a)^3": lambda h: x ** 2 / (b(h) * x + a(h)) ** 3, "-a x2": lambda h: e ** (a(h) * x ** 2),
        # powers of trig
        "sin^n": lambda h: sin(x) ** R(h.i("n", -3, 5)), "cos^n": lambda h: a(h) * cos(x) ** R(h.i("n", -3, 5)), "tan^n": lambda h: tan(x) ** R(h.i("n", -3, 4)), "sec^n": lambda h: sec(x) ** R(h.i("n", 1, 4)), "csc^n": lambda h: csc(x) ** R(h.i("n", 1, 4)), "cot^n": lambda h: cot(x) ** R(h.i("n", 1, 3)), "sin^n cos^m": lambda h: sin(x) ** R(h.i("n", -2, 4)) * cos(x) ** R(h.i("m", -2, 4)), "tan sec": lambda h: tan(x) ** R(h.i("n", 1, 3)) * sec(x) ** R(h.i("m", 1, 3)), "sin/(1+cos)": lambda h: sin(x) / (1 + a(h) * cos(x)), "1/(1+sin)": lambda h: 1 / (a(h) + sin(x)), "sin3+": lambda h: sin(x) ** 3 * a(h) + sin(x), "1/tan+1": lambda h: 1 / (tan(x) + a(h)), "sin^3 y": lambda h: sin(y * x) ** 3, "cos^5 x": lambda h: cos(x) ** 5 * x, "sin^n real": lambda h: sin(x) ** R(q(h, "n")), "sin(2x)^3": lambda h: sin(2 * x) ** 3 * cos(2 * x) ** 2,
        "sin cos": lambda h: a(h) * sin(x) * cos(x), "sin2x cos": lambda h: sin(2 * x) * cos(x), "sinax sinbx": lambda h: sin(a(h) * x) * sin(b(h) * x), "cos2": lambda h: a(h) * cos(x) ** 2, "sin2 cos": lambda h: sin(x) ** 2 * cos(3 * x), "sin2cos2": lambda h: sin(x) ** 2 * cos(x) ** 2, "tri": lambda h: sin(x) * cos(2 * x) * sin(3 * x), "x sin cos": lambda h: x * sin(x) * cos(x), "e sin cos": lambda h: e ** (a(h) * sin(x)) * cos(x), "f(tan)": lambda h: e ** tan(x) * a(h), "f(sin)": lambda h: log(sin(x) + a(h)), "f(cos)": lambda h: sqrt(cos(x) + a(h)), "sec2 f(tan)": lambda h: sec(x) ** 2 * tan(x) ** R(q(h, "n")), "sqrt(1-sin2)": lambda h: sqrt(1 - sin(x) ** 2),
        # by parts
        "x sin": lambda h: x * sin(x), "x cos ax": lambda h: x * cos(a(h) * x), "x^n e^x": lambda h: x ** R(h.i("n", 1, 3)) * e ** x, "x e^ax": lambda h: x * e ** (a(h) * x), "e^x sin": lambda h: e ** x * sin(x), "e^ax cos bx": lambda h: e ** (a(h) * x) * cos(b(h) * x), "ln x": lambda h: log(x), "ln2": lambda h: log(x, 2), "log y base": lambda h: log(x, y), "x ln": lambda h: x ** R(q(h, "n")) * log(x), "ln^2": lambda h: log(x) ** 2, "asin": lambda h: X.asin(x), "acos": lambda h: X.acos(x), "atan": lambda h: X.atan(x), "x atan": lambda h: x * X.atan(x), "x sec2": lambda h: x * sec(x) ** 2, "2^x x": lambda h: x * R(2) ** x, "y^x x": lambda h: x * y ** x, "ln/x": lambda h: log(x) / x, "ln x/x^n": lambda h: log(x) * x ** R(h.i("n", -3, -1)), "sin e^-x": lambda h: sin(x) * e ** (-x), "sin sin": lambda h: sin(x) * sin(x) if 0 else sec(x) ** 3, "sec tan": lambda h: sec(x) * tan(x) if 0 else csc(x) * cot(x), "e sec2": lambda h: a(h) * e ** (b(h) * x) * sec(x) ** 2, "tan/x^2": lambda h: a(h) * tan(x) * x ** -2, "sec2/(x+a)": lambda h: sec(x) ** 2 / (x + a(h)), "sinh": lambda h: e ** x * e ** (-2 * x) * x,
        # generic substitutions
        "e^x/(e^x+a)": lambda h: e ** x / (e ** x + a(h)), "ln^n/x": lambda h: log(x) ** R(q(h, "n")) / x if 0 else log(x) ** R(h.i("n", 1, 4)) / x, "cos f(sin)": lambda h: cos(x) * sin(x) ** R(q(h, "n")), "sin f(cos)": lambda h: sin(x) * e ** cos(x), "x e^x2": lambda h: a(h) * x * e ** (x ** 2), "x e^-x2": lambda h: x * e ** (b(h) * x ** 2), "x sin x2": lambda h: x * sin(x ** 2), "x^2/(x^3+a)": lambda h: x ** 2 * sqrt(x ** 3 + a(h)), "x^n gen": lambda h: x ** R(q(h, "n")) * sin(x ** R(q(h, "m"))), "e^sqrt": lambda h: e ** sqrt(x) / sqrt(x), "1/x sin ln": lambda h: sin(log(x)) / x, "sqrt x": lambda h: 1 / (sqrt(x) * (1 + a(h) * sqrt(x))), "x^y x": lambda h: x ** (y - 1) * sin(x ** y) if 0 else x ** y * cos(x ** (y + 1)), "1/x^2 f(1/x)": lambda h: e ** (1 / x) / x ** 2, "sec2 e^tan": lambda h: sec(x) ** 2 * e ** tan(x), "x/(1+x4)": lambda h: x / (1 + x ** 4), "abs": lambda h: X.Abs(x) * x, "fl": lambda h: X.Float(0.5) * x * sin(x), "asin/": lambda h: X.asin(x) / sqrt(1 - x ** 2), "e^x f": lambda h: e ** x * cos(e ** x), "2^x f": lambda h: R(2) ** x * sin(R(2) ** x), "x ln(x2+a)": lambda h: x * log(x ** 2 + a(h)),
    }
    return I

TRY = {   # which steps are worth trying on which integrands (by name); every step is tried on its own list in the quick tier
    "PullConstant": ["ax", "ax^n", "xy", "y sin", "pi x", "const*", "log y", "y^2 x", "y/x", "y(x+a)", "cos2", "sin(ax+b)", "x e^x2", "fl", "sin cos", "1/(1+x2)", "(x+a)(x+b)", "x sin", "x^y"],
    "Additivity": ["sum", "sum3", "sum e", "sum y", "sin3+", "lin mix", "sum dup", "x2-1", "ax"],
    "Expand": ["(x+a)(x+b)", "x(x+a)", "(x+a)^2", "(x+a)^3 x", "sin(x+1)", "y(x+a)", "e(e+1)", "x2/(x+a)", "nx+1/(x+a)x", "x sin", "exp a", "lin2", "1/(x+a)(x+b)", "(y+x)/x"],
    "PolynomialUSub": ["x/x2+a", "x e^x2", "x e^-x2", "x sin x2", "x^2/(x^3+a)", "x^n gen", "x^n-1/(x^n+a)", "e^sqrt", "1/x^2 f(1/x)", "x^y x", "x/(1+x4)", "x^3/(x^4+a)", "x2/sqrt(1-x2)", "x2/(1+x2)^2", "sqrt x", "x ln", "x sin", "x ln(x2+a)", "ax^n", "abs", "x sin cos"],
    "TrigUSub2": ["sin^n", "cos^n", "tan^n", "sec^n", "sin^n cos^m", "f(tan)", "f(sin)", "f(cos)", "1/(1+sin)", "1/tan+1", "sqrt(1-sin2)", "sin^n real", "sin/(1+cos)", "cos2", "sin2cos2", "sec2 f(tan)", "e sin cos", "1/quad sin"],
    "RewriteTrig": ["sin^n", "cos^n", "tan^n", "sec^n", "csc^n", "cot^n", "sin^n cos^m", "tan sec", "1/(1+sin)", "x sec2", "f(tan)", "sin(ax+b)", "1/tan+1", "e^x sin", "sec tan", "sin(xy)"],
    "InverseTrigUSub": ["1/(1+x2)", "1/(1-x2)", "1/sqrt(1-x2)", "x2/sqrt(1-x2)", "sqrt(1-x2)", "sqrt(x2-1)", "(1+x2)^n", "x2/(1+x2)^2", "-1-x2", "x2-1", "1/(x2+a)", "asin/", "sqrt ax2", "ax2"],
    "LinearUSub": ["sin(ax)", "sin(ax+b)", "e^ax", "(ax+b)^n", "1/(ax+b)", "ln(ax+b)", "sec2(ax)", "ax2", "sqrt ax2", "sqrt4", "2^ax", "sin(xy)", "cos(x/y)", "sin(x+y)", "y^(ax)", "(x/y)^n", "(y x2)", "two lin", "lin2", "lin mix", "exp a", "x^3 coef", "sq coef", "x^-1 coef", "-x2", "-a x2", "x cos ax", "e^ax cos bx", "sin^3 y", "x e^ax", "sin(2x)^3", "1/(x2+a)", "x sin", "sinax sinbx", "ax", "sum", "1/quad"],
    "ProductToSum": ["sin cos", "sin2x cos", "sinax sinbx", "cos2", "sin2 cos", "sin2cos2", "tri", "x sin cos", "sin^n cos^m", "sin^n", "two lin", "x sin", "sin(2x)^3", "ax"],
    "ByParts": ["x sin", "x cos ax", "x^n e^x", "x e^ax", "e^x sin", "e^ax cos bx", "ln x", "ln2", "log y base", "x ln", "ln^2", "asin", "acos", "atan", "x atan", "x sec2", "2^x x", "y^x x", "ln/x", "ln x/x^n", "sin e^-x", "sin sin", "sec tan", "sin cos", "sin2x cos", "x sin x2", "x ln(x2+a)", "cos f(sin)", "two lin", "tan sec", "x/x2+a", "ax^n"],
    "PartialFractions": ["1/(x+a)(x+b)", "nx+1/(x+a)x", "1/x2+ax", "x/(x+a)", "x/x2+a"],
    "PolynomialDivision": ["x2/(x+a)", "x3/(x2+a)", "x/(x+a)", "nx+1/(x+a)x"],
    "GenericUSub": ["e^x/(e^x+a)", "ln^n/x", "cos f(sin)", "sin f(cos)", "x e^x2", "x sin x2", "1/x sin ln", "sec2 e^tan", "sec2 f(tan)", "e^x f", "2^x f", "x/(1+x4)", "e^sqrt", "1/x^2 f(1/x)", "sin/(1+cos)", "x/x2+a", "x^n gen", "sin cos", "e sin cos", "x ln(x2+a)", "tan sec", "x ln", "sin^n cos^m"],
    "CompleteTheSquare": ["1/quad", "1/(x+a)^2", "1/aquad", "x/quad", "1/sqrt quad", "1/sqrt -quad", "1/quad2", "1/quad sin", "1/(x2+a)", "(y+x)/x"],
    "RewritePythagorean": ["sin^n", "cos^n", "sin^n cos^m", "sin3+", "sin^3 y", "cos^5 x", "sin(2x)^3", "cos2", "sin^n real", "tri"],
    "Simplify": ["sqrt(1-sin2)", "tan sec", "sin^n cos^m", "sin(ax+b)"],
}

def templates(tier):
    warnings.simplefilter("ignore")
    T = TL()
    X = sp()
    import importlib
    TF = importlib.import_module("simpy.transforms")
    IN = importlib.import_module("simpy.integration")
    IT = importlib.import_module("simpy.integral_table")
    qk = tier == "quick"
    rng = random.Random(13)
    x, y, u = S("x"), S("y"), S("u")
    I = integrands(tier)
    OP = Opaques()
    classes = {c.__name__: c for c in list(TF.SAFE_TRANSFORMS) + list(TF.HEURISTICS) + [TF.Simplify]}
    def opens(n):
        return [l for l in n.leaves if l.type != "SOLUTION" and l is not n]
    def give(h, n):
        """arbitrary solutions for the open sub-problems below n"""
        for l in opens(n):
            l.type, l.solution = "SOLUTION", OP.new(l.expr, l.var)
    def own_var(h, n):
        ok = True
        for l in opens(n):
            ok = h.true(not has_inf(l.expr), "the new integrand is finite", lambda: h.show(l.expr)) and ok
            if l.var != n.var: ok = h.true(not contains(l.expr, n.var), "the new integrand still contains the old variable", lambda: "%s d%s" % (h.show(l.expr), l.var)) and ok
        return ok
    def correct(h, n, label, cond=None):
        h.equal(n.expr, ("D", n.solution, n.var.name), label, opaque=OP.table(), strict=False, cond=cond)
    def up(h, n, parent):
        """solve n from its sub-solutions, then hand the result to its parent with the step's own code"""
        for c in n.children:
            if c.type == "FAILURE": return False
            if not up(h, c, n): return False
        ok, _ = h.run(lambda: n.transform.backward(n), "backward %s" % type(n.transform).__name__)
        return ok
    def applied(h, name, e):
        node = TF.Node(e, x)
        t = classes[name]()
        ok, c = h.run(lambda: t.check(node), name + " check")
        if not ok: return None
        if not c:
            h.true(True, "does not apply")
            return None
        ok, _ = h.run(lambda: t.forward(node), name + " forward")
        if not ok: return None
        if not node.children: h.true(True, "no sub-problem")
        return node if node.children else None
    def single(name, iname):
        def f(h):
            OP.reset()
            e = I[iname](h)
            h.seed_models()
            node = applied(h, name, e)
            if node is None or not own_var(h, node): return
            if not h.true(node.expr == e and node.var == x, "the problem is unchanged"): return
            give(h, node)
            cond = None
            if name == "TrigUSub2":
                cos_sign = {"sin": X.cos(x), "cos": X.sin(x)}
                k = [k for k in cos_sign if contains(node.children[0].transform._u, getattr(X, k)(x))]
                if k:
                    cond = [cos_sign[k[0]]]
            if node.type == "AND":
                for c in node.children:
                    if not up(h, c, node): return
                if h.true(node.solution is not None, "a solution is assembled"): correct(h, node, name, cond)
            else:
                for c in list(node.children):
                    node.solution = None
                    if not up(h, c, node): return
                    if h.true(node.solution is not None, "a solution is assembled"): correct(h, node, name, cond)
        T.add("%s:%s" % (name, iname))(f)
    for name in classes:
        names = list(I) if not qk else [n for n in TRY.get(name, list(I)[::4]) if n in I]
        if qk and name in TRY:
            names = names + rng.sample([n for n in I if n not in names], 12)
        for n in names: single(name, n)
    # u = sin x is only valid where cos x > 0: recorded as a known finding
    def branch(h):
        OP.reset()
        e = I["cos2"](h)
        h.seed_models()
        node = TF.Node(X.sin(x) ** 2, x)
        t = TF.TrigUSub2()
        if not h.run(lambda: t.check(node), "check")[1]: return
        t.forward(node)
        give(h, node)
        h.known("C13-trigsub-branch")
        if up(h, node.children[0], node): correct(h, node, "TrigUSub2")
    T.add("known:TrigUSub2")(branch)
    # several steps, solved with the integrator's own way back
    def chain(nm, steps, iname):
        def f(h):
            OP.reset()
            e = I[iname](h) if isinstance(iname, str) else iname(h)
            h.seed_models()
            root = TF.Node(e, x)
            cur = root
            for s in steps:
                if s == "safe":
                    ok, _ = h.run(lambda: IN._integrate_safely(cur), "safe transforms")
                    if not ok: return
                elif s == "table":
                    for l in opens(root):
                        if not h.run(lambda: IN._check_if_node_solvable(l), "table")[0]: return
                else:
                    t = classes[s]()
                    ok, c = h.run(lambda: t.check(cur), s + " check")
                    if not ok: return
                    if not c: break
                    ok, _ = h.run(lambda: t.forward(cur), s + " forward")
                    if not ok: return
                o = [l for l in root.leaves if l.type != "SOLUTION"]
                if not o: break
                cur = o[0]
            give(h, root)
            if not root.children:
                h.true(True, "does not apply")
                return
            if not h.true(root.is_solved, "solved when every open part is"): return
            ok, _ = h.run(lambda: IN.Integration._go_backwards(root), "go backwards")
            if ok: h.true(not has_inf(root.solution), "the solution is finite", lambda: h.show(root.solution))
            if ok: correct(h, root, nm)
        T.add("chain:" + nm)(f)
    CH = [
        (["ByParts", "safe", "ByParts", "safe"], ["e^x sin", "e^ax cos bx", "x^n e^x", "sin e^-x", "x ln", "sin sin", "two lin", "sec tan", "ln^2", "sinax sinbx", "e sec2", "tan/x^2", "x sec2", "sec2/(x+a)"]),
        (["safe", "table"], ["sum3", "sum dup", "sum y", "x2/(x+a)", "x3/(x2+a)", "1/(x+a)(x+b)", "(ax+b)^n", "sin(ax+b)", "(x+a)^2", "e^ax", "2^ax", "lin mix", "sin3+", "y(x+a)", "ax^n", "nx+1/(x+a)x"]),
        (["safe", "ByParts", "safe", "table"], ["x cos ax", "x e^ax", "ln(ax+b)", "xy", "x ln", "2^x x"]),
        (["safe", "ByParts", "safe", "ByParts", "safe", "table"], ["e^x sin", "x^n e^x", "sin e^-x"]),
        (["PolynomialUSub", "safe"], ["x e^-x2", "x/x2+a", "x^n-1/(x^n+a)", "x^2/(x^3+a)"]),
        (["CompleteTheSquare", "safe", "InverseTrigUSub", "safe"], ["1/quad", "1/sqrt -quad", "1/aquad"]),
        (["InverseTrigUSub", "safe"], ["1/(1+x2)", "x2/(1+x2)^2", "sqrt(1-x2)", "x2/sqrt(1-x2)"]),
        (["RewritePythagorean", "safe", "GenericUSub", "safe"], ["sin^3 y", "cos^n", "sin(2x)^3"]),
        (["ProductToSum", "safe", "table"], ["sinax sinbx", "cos2", "sin2 cos", "tri"]),
        (["LinearUSub", "PolynomialUSub", "safe"], ["sqrt ax2", "ax2", "-a x2"]),
    ]
    for steps, names in CH:
        for n in names: chain(">".join(s[:9] for s in steps) + ":" + n, steps, n)
    # the look-up table
    TBL = {
        "const": lambda h: R(h.q("a")), "y": lambda h: y * h.q("a", nz=True), "x^n": lambda h: x ** R(h.q("n")), "x^y": lambda h: x ** y, "x^(y+n)": lambda h: x ** (y + R(h.q("n"))), "a^x": lambda h: R(h.q("a", pos=True)) ** x, "y^x": lambda h: y ** x, "e^x": lambda h: X.e ** x, "x": lambda h: x, "sin": lambda h: X.sin(x), "cos": lambda h: X.cos(x), "sec2": lambda h: X.sec(x) ** R(h.i("n", -2, 3)), "tan": lambda h: X.tan(x) ** R(h.i("n", -2, 2)), "csc": lambda h: X.csc(x) ** R(h.i("n", -2, 2)), "sin y": lambda h: X.sin(y), "sin2x": lambda h: X.sin(h.q("a", nz=True) * x), "pi": lambda h: X.pi ** x, "x^pi": lambda h: x ** X.pi, "(y+1)^x": lambda h: (y + 1) ** x, "x^x": lambda h: x ** x, "2^y": lambda h: R(2) ** y * h.q("a"), "sin cos": lambda h: X.sin(X.cos(x)), "sqrt": lambda h: X.sqrt(x), "ln": lambda h: X.log(x), "prod": lambda h: x * X.sin(x), "e^2x": lambda h: X.e ** (h.q("a", nz=True) * x), "asin": lambda h: X.asin(x), "yx": lambda h: x * y, "sinh": lambda h: X.sin(x) ** R(h.i("n", -2, 2)), "inf base": lambda h: X.sqrt(2) ** x,
    }
    for k, mk in TBL.items():
        def f(h, mk=mk):
            e = mk(h)
            h.seed_models()
            ok, r = h.run(lambda: IT.check_integral_table(e, x), "table")
            if not ok: return
            if r is None:
                h.true(True, "not in the table")
                return
            h.equal(e, ("D", r, "x"), "table", strict=False)
            n = TF.Node(e, x)
            IN._check_if_node_solvable(n)
            h.true(n.type == "SOLUTION" and n.solution == r, "the node is marked solved")
        T.add("table:" + k)(f)
    return T
