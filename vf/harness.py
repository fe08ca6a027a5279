"""Templates run against this object, either symbolically (mode 'sym') or on ordinary numbers (mode 'conc')."""
import sys, os, random, json, time, re, traceback
from fractions import Fraction

REPO = os.environ.get("VF_REPO", "/repo")
if REPO + "/src" not in sys.path:
    sys.path.insert(0, REPO + "/src")

def load_simpy():
    import importlib
    import simpy, simpy.expr, simpy.regex, simpy.utils, simpy.polynomial, simpy.linalg, simpy.combinatorics, simpy.latex
    import simpy.simplify, simpy.integration, simpy.transforms, simpy.integral_table
    assert os.path.realpath(simpy.__file__).startswith(os.path.realpath(REPO)), simpy.__file__
    return simpy

def simpy_modules():
    return [m for n, m in list(sys.modules.items()) if m is not None and (n == "simpy" or n.startswith("simpy."))]

class Skip(BaseException):
    """leave this path: nothing to check"""

class H:
    def __init__(self, mode, params=None, seed=1, tier="quick"):
        self.mode = mode
        self.given = params or {}
        self.seed = seed
        self.tier = tier
        self.sym = mode == "sym"
        self.reset()

    def reset(self):
        self.used = {}
        self.fails = []       # (label, detail)
        self.known_ids = []
        self.checks = 0
        self.undef = 0
        self.gens = []
        self.notes = []
        self.names = set()
        self.decided = []

    # ------------------------------------------------------------ inputs
    def q(self, name, nz=False, pos=False):
        """arbitrary rational"""
        if not self.sym:
            x = Fraction(self.given[name])
            self.used[name] = x
            return x
        from . import sym as S
        from .poly import atom, vatom
        a = atom("preal", "P:" + name, name)
        v = vatom(a)
        S.ENG.params[name] = v
        self.gens.append((a.id, (lambda rng: Fraction(rng.randint(1, 9), rng.choice((1, 1, 2, 3)))) if pos else
                          (lambda rng: Fraction(rng.choice((-1, 1)) * rng.randint(1, 9), rng.choice((1, 1, 2, 3))))))
        if pos:
            S.ENG.assume(v, S.POSS)
        elif nz:
            S.ENG.assume(v, S.NZ)
        return S.mkq(v)

    def i(self, name, lo=None, hi=None, nz=False):
        """arbitrary integer in [lo, hi]"""
        if not self.sym:
            x = int(Fraction(self.given[name]))
            self.used[name] = Fraction(x)
            return x
        from . import sym as S
        from .poly import atom, vatom, to_val
        a = atom("pint", "P:" + name, name)
        v = vatom(a)
        S.ENG.params[name] = v
        l = -6 if lo is None else lo
        h = max(l, 6) if hi is None else hi
        self.gens.append((a.id, lambda rng: rng.randint(l, h) if not nz else (rng.randint(l, h) or (1 if h >= 1 else -1))))
        if lo is not None:
            S.ENG.assume(v - to_val(lo), S.GE)
        if hi is not None:
            S.ENG.assume(to_val(hi) - v, S.GE)
        if nz:
            S.ENG.assume(v, S.NZ)
        return S.mki(v)

    def seed_models(self):
        if self.sym:
            from . import sym as S
            S.ENG.seed_models(self.gens)

    def frac(self, name, den, lo=None, hi=None):
        """n/den with n an arbitrary integer coprime is not required"""
        n = self.i(name, lo, hi)
        return Fraction(n, den) if not self.sym else n / Fraction(den)

    def choose(self, n, name):
        """nondeterministic index in range(n)"""
        if not self.sym:
            x = int(Fraction(self.given[name]))
            self.used[name] = Fraction(x)
            return x
        from . import sym as S
        from .poly import to_val
        k = S.ENG.choose(n)
        S.ENG.params[name] = to_val(k)
        return k

    def assume(self, cond):
        if not cond:
            if self.sym:
                from . import sym as S
                raise S.PathAbort()
            raise Skip()

    def is_int(self, x):
        if isinstance(x, int): return True
        if self.sym:
            from . import sym as S
            return S.ENG.isint(S.val_of(x))
        return Fraction(x).denominator == 1

    def even(self, x):
        return x % 2 == 0

    def note(self, s):
        self.notes.append(s)

    def known(self, kid):
        """this path belongs to a listed known finding"""
        self.known_ids.append(kid)

    # ------------------------------------------------------------ running the code under test
    def run(self, fn, label="call", allow=(), allow_if=None):
        """run real code; an exception outside `allow` fails the property; returns (ok, value)"""
        try:
            return True, fn()
        except allow as ex:
            return False, ex
        except RecursionError as ex:
            self.fail(label + " raises", "RecursionError")
            return False, ex
        except Exception as ex:
            if allow_if is not None and allow_if(ex):
                return False, ex
            self.checks += 1
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].name) if tb else "?"
            self.fail(label + " raises", "%s: %s at %s" % (type(ex).__name__, str(ex)[:200], where))
            return False, ex

    def escaped(self, ex):
        """an exception that left the template: a failure when it comes from the code under test"""
        tb = traceback.extract_tb(ex.__traceback__)
        if not tb or "/simpy/" not in tb[-1].filename:
            if isinstance(ex, AttributeError) and ("simpy.expr" in str(ex) or "module" in str(ex)):
                return False
            if not any("/simpy/" in f.filename for f in tb[-6:]):
                return False
        self.checks += 1
        self.fail("raises", "%s: %s at %s:%s" % (type(ex).__name__, str(ex)[:200], os.path.basename(tb[-1].filename), tb[-1].name))
        return True

    def fail(self, label, detail, goals=()):
        self.fails.append((label, str(detail)[:600], goals))

    def true(self, cond, label, detail=""):
        self.checks += 1
        if not cond:
            self.fail(label, detail() if callable(detail) else detail)
            return False
        return True

    def show(self, e):
        try:
            return repr(e) if not isinstance(e, tuple) else self._showt(e)
        except BaseException as ex:
            return "<%s>" % type(e).__name__

    def _showt(self, e):
        return "(" + " ".join(x if isinstance(x, str) else self.show(x) for x in e) + ")"

    # ------------------------------------------------------------ value equality
    def equal(self, out, ref, label="value", opaque=None, strict=True, cond=None):
        """out and ref denote the same real value wherever both are defined"""
        if self.sym:
            return self._equal_sym(out, ref, label, opaque, strict, cond or ())
        return self._equal_conc(out, ref, label, opaque, strict, cond or ())

    def _equal_sym(self, out, ref, label, opaque, strict, cond=()):
        """cond: expressions that must be positive at the points considered"""
        from . import sym as S, den as D
        from .poly import Undefined
        eng = S.ENG
        names = set()
        sens = sensitive(out, names) | sensitive(ref, names)
        for c in cond: sens |= sensitive(c, names)
        if sens:
            for n in sorted(names):
                if n not in eng.scen:
                    eng.scen[n] = (1, -1)[eng.choose(2)]
        for attempt in range(12):
            ver = eng.version
            dd = D.Den(opaque)
            try:
                if not all(D.factors(dd.d(c))[0] > 0 for c in cond): return None
                vr = dd.d(ref)
            except (Undefined, ZeroDivisionError):
                self.undef += 1
                return None
            try:
                vo = dd.d(out)
            except (Undefined, ZeroDivisionError) as ex:
                msg = str(ex)
                if strict and ("zero" in msg or "infinite" in msg or "inverse" in msg):
                    self.checks += 1
                    self.fail(label + " undefined", "output %s undefined (%s)" % (self.show(out), msg))
                    return False
                self.undef += 1
                return None
            if eng.version == ver:
                break
        else:
            raise S.Inconclusive("denotation did not stabilise")
        self.checks += 1
        r, goal = decide_equal(eng, vo, vr)
        if r != "equal" and eng.eliminate_int():
            self.checks -= 1
            return self._equal_sym(out, ref, label, opaque, strict, cond)
        self.decided.append(r)
        if r == "equal":
            return True
        self.fail(label, "input %s output %s" % (self.show(ref), self.show(out)), goal)
        return False

    def _equal_conc(self, out, ref, label, opaque, strict, cond=()):
        from . import neval as N
        names = set()
        sensitive(out, names)
        sensitive(ref, names)
        for c in cond: sensitive(c, names)
        names = sorted(names)
        defined = 0
        for env in sample_points(names, self.seed):
            ev = N.NEval(env, opaque=opaque)
            try:
                if not all(ev.v(c) > 0 for c in cond): continue
                b = ev.v(ref)
            except (N.Undef, ZeroDivisionError, OverflowError, ValueError):
                continue
            if abs(N.mpmath.im(b)) > 0:
                continue
            try:
                a = ev.v(out)
            except (N.Undef, ZeroDivisionError, OverflowError, ValueError):
                if strict and infinite(out):
                    self.checks += 1
                    self.fail(label + " undefined", "at %s the result %s is undefined, expected %s" % (
                        {k: N.mpmath.nstr(v, 8) for k, v in env.items()}, self.show(out), N.mpmath.nstr(b, 15)))
                    return False
                continue
            defined += 1
            tol = N.mpf(10) ** -9
            if not (abs(a - b) <= tol * (1 + abs(a) + abs(b))):
                self.checks += 1
                self.fail(label, "at %s the result %s has value %s, expected %s (from %s)" % (
                    {k: N.mpmath.nstr(v, 8) for k, v in env.items()}, self.show(out), N.mpmath.nstr(a, 15), N.mpmath.nstr(b, 15), self.show(ref)))
                return False
        self.checks += 1
        if not defined:
            self.undef += 1
        return True

def infinite(e, _d=0):
    """does the tree contain an infinity / division by an identically zero constant?"""
    n = type(e).__name__
    if n in ("Infinity", "NegInfinity", "NaN"): return True
    if n == "Float": return isinstance(e.value, float) and (e.value != e.value or e.value in (float("inf"), float("-inf")))
    if n == "Power":
        from . import neval as N
        try:
            if type(e.exponent).__name__ == "Rat" and e.exponent.value < 0 and N.NEval({}).symfree(e.base):
                if abs(N.NEval({}).v(e.base)) < N.mpf(10) ** -30: return True
        except Exception:
            pass
    if hasattr(e, "children"):
        return any(infinite(c) for c in e.children())
    return False

_PTS = {}
def sample_points(names, seed):
    from . import neval as N
    key = (tuple(names), seed)
    if key in _PTS: return _PTS[key]
    rng = random.Random(repr(key))
    pts = []
    for t in range(24 if names else 1):
        env = {}
        for n in names:
            x = N.mpf(rng.randint(137, 2999)) / 1000 + N.mpf(rng.randint(1, 10**9)) / 10**13
            if t % 4 == 3: x = x / 4
            if t % 6 == 5: x = x * 3
            if t >= 8 and rng.random() < .5: x = -x
            env[n] = x
        pts.append(env)
    _PTS[key] = pts
    return pts

def sensitive(e, names):
    """collects symbol names; True if a sign-sensitive operation occurs"""
    if isinstance(e, tuple):
        if e[0] == "sym":
            names.add(e[1])
            return False
        if e[0] == "subst":
            r = sensitive(e[1], names)
            for v in e[2].values():
                r |= sensitive(v, names)
            return r
        if e[0] == "D":
            names.add(e[2])
            return sensitive(e[1], names)
        r = e[0] in ("log", "abs", "asin", "acos", "atan")
        if e[0] == "^":
            x = e[2]
            r = not _intlike(x)
        for z in e[1:]:
            r |= sensitive(z, names)
        return r
    n = type(e).__name__
    if n == "Symbol":
        names.add(e.name)
        return False
    if hasattr(e, "children") and not isinstance(e, type):
        r = n in ("log", "Abs") or (getattr(e, "is_inverse", False) is True)
        if n == "Power":
            r = not _intlike(e.exponent)
        for c in e.children():
            r |= sensitive(c, names)
        return r
    return False

def _intlike(x):
    if isinstance(x, int): return True
    if type(x) is Fraction: return x.denominator == 1
    if type(x).__name__ == "Rat": return type(x.value) is Fraction and x.value.denominator == 1
    return False

def decide_equal(eng, vo, vr):
    """solver verdict on 'exists values satisfying the path condition with vo != vr'.
    -> ('equal', None) or ('differ'|'unknown', goals)"""
    from .den import reduce_poly
    from .poly import Val, TooBig
    from .solver import Emit
    from . import sym as S
    d = vo - vr
    d = eng.norm(d)
    p = reduce_poly(d.num)
    if not p.t:
        # equal in normal form: both cross-multiplied sides are still handed to the solver when they are small
        try:
            n1, n2 = _common(eng.norm(vo), eng.norm(vr))
            m1, m2 = {}, {}
            n1, n2 = reduce_poly(n1, m1), reduce_poly(n2, m2)
            t = _eqtext(n1, n2) if {a: k for a, k in m1.items() if k} == {a: k for a, k in m2.items() if k} else None
        except (TooBig, AssertionError):
            t = None
        if t:
            r, _ = eng.solver.query(t + "\n(check-sat)", timeout=5.0, kind="vc")
            if r == "sat":
                raise S.Inconclusive("normal form and solver disagree")
        eng.stats["nf"] = eng.stats.get("nf", 0) + 1
        return "equal", None
    # quick refutation: a generic rational point (params from cached models) decides "differ" cheaply
    facts = eng.slice(p)
    den = [(f, S.NZ) for f, k in list(vo.den) + list(vr.den)]
    goals = [p]
    try:
        em = Emit()
        txt, isint = em.build(facts + den, goals=goals, ints=False)
        r, out = eng.solver.query("(set-logic QF_NRA)\n" + txt + "\n(check-sat)", timeout=10.0 if eng.tier == "quick" else 40.0, kind="vc")
    except TooBig:
        raise S.Inconclusive("verification condition too big")
    if r == "unsat":
        return "equal", None
    if eng.infeasible():
        raise S.PathAbort()
    return ("differ" if r == "sat" else "unknown"), (facts, goals)

def _common(a, b):
    da, db = dict(a.den), dict(b.den)
    na, nb = a.num, b.num
    for f in set(da) | set(db):
        k = max(da.get(f, 0), db.get(f, 0))
        if k > da.get(f, 0): na = na * f ** (k - da.get(f, 0))
        if k > db.get(f, 0): nb = nb * f ** (k - db.get(f, 0))
    return na, nb

def _eqtext(a, b):
    from .solver import Emit
    em = Emit()
    em._kid, em._wp, em._pending = {}, {}, []
    em.scan(a)
    em.scan(b)
    ra, ia = em.expand(a, False)
    rb, ib = em.expand(b, False)
    if len(ra) > 400:
        return None
    out = ["(set-logic QF_NRA)"]
    ta, tb = em.term(em._clear(ra), True), em.term(em._clear(rb), True)
    out += ["(declare-const %s Real)" % v for v in em.decls]
    out.append("(assert (not (= %s %s)))" % (ta, tb))
    return "\n".join(out)
