"""Symbolic numbers and the path-exploring engine (re-execution over decision prefixes)."""
import fractions, math, random, time, sys
from fractions import Fraction
from .poly import *
from . import poly as P
from .solver import Solver, Emit, parse_model, SolverError

ALL = frozenset((-1, 0, 1))
POSS, NEGS, ZER, NZ, GE, LE = map(frozenset, ((1,), (-1,), (0,), (-1, 1), (0, 1), (-1, 0)))

class Control(BaseException):
    pass
class PathAbort(Control):
    """path condition turned out infeasible / assumption false"""
class Restart(Control):
    pass
class Inconclusive(Control):
    """something the engine does not model; the path is counted as undecided"""
class Budget(Control):
    pass

ENG = None      # current engine

def _divisors(n):
    out = []
    d = 1
    while d * d <= n:
        if n % d == 0:
            out.append(d)
            if d * d != n: out.append(n // d)
        d += 1
    return sorted(out)

def sgn(c):
    return (c > 0) - (c < 0)

def flip(S):
    return frozenset(-s for s in S)

def _atom_pos(a):
    A = ATOMS[a]
    if A.kind in ("sym", "T", "prime", "const"):
        return True
    return A.kind == "LN" and A.data is not None and ATOMS[A.data].kind in ("prime", "const")

def pi_e_groups(q):
    """coefficients of q as a polynomial in pi and e over algebraic numbers and rational parameters, or None.
    pi and e are taken to be algebraically independent."""
    g = {}
    for m, c in q.t.items():
        key, rest = [], []
        for a, k in m:
            if a == PI_ID or a == E_ID:
                if not isinstance(k, (int, Fraction)): return None
                key.append((a, k))
            else:
                at = ATOMS[a]
                if at.kind == "prime":
                    if not isinstance(k, (int, Fraction)): return None
                elif not (at.kind in ("preal", "pint") and "!" not in at.name) or not isinstance(k, int):
                    return None
                rest.append((a, k))
        g.setdefault(tuple(key), {})[tuple(rest)] = c
    if len(g) < 2:
        return None
    return [Poly(t) for t in g.values()]

class Engine:
    def __init__(self, solver, seed=1, max_paths=2000, deadline=None, max_decisions=400):
        self.solver = solver
        self.seed = seed
        self.max_paths = max_paths
        self.deadline = deadline
        self.max_decisions = max_decisions
        self.stats = dict(paths=0, aborted=0, inconclusive=0, decisions=0, truncated=0)
        self.incon = []
        self.qcache = {}
        self.tokmode = "token"
        self.concretized = 0
        self.conc_budget = 12

    # ------------------------------------------------------------------ exploration
    def explore(self, fn):
        """fn() is run once per path; yields (status, result) where status in ok/abort/incon/error"""
        global ENG
        work = [([], ())]
        ENG = self
        try:
            while work:
                if self.stats["paths"] >= self.max_paths or (self.deadline and time.time() > self.deadline):
                    self.stats["truncated"] += len(work)
                    break
                prefix, self.pre = work.pop()
                self.prefix = prefix
                self.pos = 0
                self.trace = []
                self.new = []
                self.reset_path()
                again = None
                try:
                    res = fn()
                    st = "ok"
                except PathAbort:
                    st, res = "abort", None
                except Restart:
                    # text of a number was chosen before its value was known: run again with everything known from the start
                    st, res = "abort", None
                    if self.fresh or len(self.pre) > 60 or not self.pre_done:
                        st, res = "incon", "text of a number that became known later"
                    else:
                        again = [(q, s) for q, s in self.facts.items()] + [((vatom(a) - v).num, ZER) for a, v in self.subst.items()]
                except Inconclusive as ex:
                    st, res = "incon", str(ex)
                except TooBig as ex:
                    st, res = "incon", "too big: %s" % ex
                except RecursionError as ex:
                    st, res = "incon", "recursion"
                self.stats["paths"] += 1
                if st == "abort":
                    self.stats["aborted"] += 1
                elif st == "incon":
                    self.stats["inconclusive"] += 1
                    if len(self.incon) < 20:
                        self.incon.append(res)
                for i, alt in reversed(self.new):
                    work.append((self.trace[:i] + [alt], self.pre))
                if again:
                    self.stats["restarts"] = self.stats.get("restarts", 0) + 1
                    work.append(([], tuple(again)))
                yield st, res
        finally:
            if ENG is self:
                ENG = None

    def reset_path(self):
        self.facts = {}
        self.subst = {}
        self.pre_done = not self.pre
        self.version = 0
        self.nonint = []
        self.intvals = []
        self.isint_memo = {}
        self.numden = {}
        self.floor_memo = {}
        self.tokens = []        # (Val, text)
        self.params = {}        # name -> Val in terms of original atoms
        self.order = []
        self.fresh = 0
        self.coprime = []
        self.roots = {}
        self.scen = {}
        self.conc_left = self.conc_budget
        self.models = None
        self.gmodels = []

    def choose(self, n, tag=""):
        """nondeterministic choice among n alternatives (all feasible)"""
        if n == 1:
            return 0
        return self._branch(list(range(n)))

    def _branch(self, opts):
        """opts: feasible options. returns one; registers others"""
        if self.pos < len(self.prefix):
            r = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(r)
            return r
        self.stats["decisions"] += 1
        if len(self.trace) > self.max_decisions:
            raise Inconclusive("too many decisions on one path")
        if self.deadline and time.time() > self.deadline + 5:
            raise Inconclusive("deadline")
        r = opts[0]
        i = len(self.trace)
        for o in reversed(opts[1:]):
            self.new.append((i, o))
        self.trace.append(r)
        self.pos += 1
        return r

    def replaying(self):
        return self.pos < len(self.prefix)

    # ------------------------------------------------------------------ values
    def norm(self, v):
        if not self.subst:
            return v
        for _ in range(50):
            at = v.atoms()
            if not any(a in self.subst for a in at):
                return v
            v = subst_val(v, self.subst)
        raise Inconclusive("substitution loop")

    def new_int(self, hint="k"):
        self.fresh += 1
        return atom("pint", "%s!%d" % (hint, self.fresh), "%s!%d" % (hint, self.fresh))

    def new_real(self, hint="r"):
        self.fresh += 1
        return atom("preal", "%s!%d" % (hint, self.fresh), "%s!%d" % (hint, self.fresh))

    def canon(self, p):
        """poly -> (sign factor, monic poly with positive atoms stripped)"""
        c, m, prim = split_content(p)
        s = sgn(c)
        rest = []
        for a, e in m:
            if _atom_pos(a):
                continue
            if isinstance(e, Val):
                rest.append((a, e))
                continue
            if e < 0:
                e = -e
            if type(e) is int and e > 2:
                e = 2 - e % 2
            rest.append((a, e))
        q = prim.mul_mono(tuple(rest)) if rest else prim
        return s, q

    def quick(self, q):
        """possible signs by inspection"""
        if not q.t:
            return ZER
        signs = set()
        strict = False
        for m, c in q.t.items():
            s = sgn(c)
            nz = True
            for a, e in m:
                if a in (I_ID, W_ID):
                    return ALL
                if _atom_pos(a):
                    continue
                kn = self.atom_signs(a)
                if isinstance(e, Val) or type(e) is not int:
                    if kn == POSS:
                        continue
                    return ALL
                if e % 2 == 0:
                    if 0 in kn:
                        nz = False
                elif kn == POSS:
                    pass
                elif kn == NEGS:
                    s = -s
                elif kn == GE:
                    nz = False
                elif kn == LE:
                    nz = False
                    s = -s
                else:
                    return ALL
            signs.add(s)
            if nz:
                strict = True
        if len(signs) == 2:
            return ALL
        s = signs.pop()
        return frozenset((s,)) if strict else frozenset((s, 0))

    def atom_signs(self, a):
        if _atom_pos(a):
            return POSS
        return self.facts.get(Poly({((a, 1),): 1}), ALL)

    def decide(self, v, S):
        """is sign(v) in S?  Forks when both are possible."""
        v = self.norm(v)
        p = v.num
        for f, k in v.den:
            if k % 2:
                p = p * f
        c = p.const()
        if c is not None:
            return sgn(c) in S
        if all_const(v):
            r = const_sign(v)
            if r is not None:
                return r in S
        s, q = self.canon(p)
        if s < 0:
            S = flip(S)
        if q.const() is not None:
            return sgn(q.const()) in S
        # zero tests split over factors
        if S == ZER or S == NZ:
            c0, m, prim = split_content(q)
            if m:
                z = False
                for a, e in m:
                    if self._dec(Poly({((a, 1),): 1}), ZER):
                        z = True
                        break
                if not z and prim.const() is None:
                    return self.decide(Val(prim), ZER) == (S == ZER)
                return z == (S == ZER)
            g = pi_e_groups(q)
            if g is not None:
                for c in g:
                    if not self.decide(Val(c), ZER):
                        return S != ZER
                return S == ZER
        return self._dec(q, S)

    def _dec(self, q, S):
        cur = self.facts.get(q, ALL)
        if cur <= S:
            return True
        if not (cur & S):
            return False
        cur2 = cur & self.quick(q)
        if not cur2:
            raise PathAbort()
        if cur2 <= S:
            return True
        if not (cur2 & S):
            return False
        cur = cur2
        A, B = cur & S, cur - S
        if self.replaying():
            d = self._branch(None)
        else:
            fa = self.feasible(q, A)
            fb = self.feasible(q, B) if fa else True
            if fa and fb:
                d = self._branch([1, 0])
            elif fa:
                d = self._branch([1])
            else:
                d = self._branch([0])
        self.assume_sign(q, A if d else B)
        return bool(d)

    def assume_sign(self, q, S):
        S = frozenset(S)
        cur = self.facts.get(q, ALL)
        S2 = cur & S
        if not S2:
            raise PathAbort()
        if S2 == cur:
            return
        self.facts[q] = S2
        self._filter_models(q, S2)
        if S2 != ZER and len(q.t) <= 2:
            self._tighten(q)
        if S2 == ZER:
            c, m, prim = split_content(q)
            if m and prim.const() is None:
                rest = tuple((a, 1) for a, e in m if not _atom_pos(a) and (isinstance(e, Val) or e > 0) and 0 in self.atom_signs(a))
                q2 = prim.mul_mono(rest) if rest else prim
                if q2 != q:
                    self.assume_sign(self.canon(q2)[1], ZER)
                    return
            self._solve_for(q)

    def assume(self, v, S):
        """harness assumption (no fork)"""
        v = self.norm(v)
        p = v.num
        for f, k in v.den:
            if k % 2:
                p = p * f
        c = p.const()
        if c is not None:
            if sgn(c) not in S:
                raise PathAbort()
            return
        s, q = self.canon(p)
        self.assume_sign(q, flip(S) if s < 0 else S)

    # ------------------------------------------------------------------ substitution
    def _solve_for(self, q):
        """q == 0: eliminate a variable if possible"""
        if len(q.t) == 2:
            (m1, c1), (m2, c2) = sorted(q.t.items(), key=lambda z: len(z[0]))
            if not m1 and len(m2) == 1 and isinstance(m2[0][1], Val) and ATOMS[m2[0][0]].kind == "prime":
                # p^v = r with p prime: r is p^k and v = k (v rational), or no solution
                r, k, pr = Fraction(-c1) / Fraction(c2), 0, ATOMS[m2[0][0]].data
                while r.numerator % pr == 0 and r > 0: r, k = r / pr, k + 1
                while r.denominator % pr == 0: r, k = r * pr, k - 1
                v = m2[0][1]
                if r == 1:
                    self.assume(v - to_val(k), ZER)
                    return
                if r <= 0 or not v.den and all(ATOMS[x].kind in ("preal", "pint") for x in v.atoms()) and not any("!" in ATOMS[x].name for x in v.atoms()):
                    raise PathAbort()
        rr = self._rational_roots(q)
        if rr:
            a, roots = rr
            ok = []
            for x in roots:
                if all(eval_poly(f, {a: x}) is None or sgn(eval_poly(f, {a: x})) in T for f, T in self.facts.items() if f.atoms() == {a}):
                    ok.append(x)
            if not ok:
                raise PathAbort()
            self.set_subst(a, to_val(ok[self.choose(len(ok))]))
            return
        cand = []
        allat = q.atoms()
        for a in allat:
            A = ATOMS[a]
            if A.kind not in ("preal", "pint"):
                continue
            co, ok = {}, True
            for m, c in q.t.items():
                e = 0
                for b, f in m:
                    if b == a:
                        e = f
                    elif isinstance(f, Val) and a in f.atoms():
                        ok = False
                if not ok or isinstance(e, Val) or e not in (0, 1):
                    ok = False
                    break
                co.setdefault(e, {})[m] = c
            if not ok or 1 not in co:
                continue
            lead = {}
            for m, c in co[1].items():
                lead[tuple((b, f) for b, f in m if b != a)] = c
            cand.append((a, Poly(lead), Poly(co.get(0, {}))))
        best = None
        for a, A, B in cand:
            k = ATOMS[a].kind
            Ac = A.const()
            if k == "pint":
                if Ac is None:
                    continue
                val = Val(B.scale(-cinv(Ac)))
                if not self._struct_int(val):
                    if val.const() is not None:
                        raise PathAbort()
                    continue
                score = (0 if val.const() is not None else 2, a)
            else:
                if Ac is None:
                    qa = self.canon(A)[1]
                    if 0 in (self.facts.get(qa, ALL) & self.quick(qa)):
                        qb = self.canon(B)[1] if B.t else ZERO
                        if not B.t or (qb.const() is None and 0 in (self.facts.get(qb, ALL) & self.quick(qb))):
                            continue
                        self.assume_sign(qa, NZ)
                        return self._solve_for(q)
                    val = Val(-B) / Val(A)
                    score = (3, -a)
                else:
                    val = Val(B.scale(-cinv(Ac)))
                    score = (1, -a)
            if best is None or score < best[0]:
                best = (score, a, val)
        if best:
            self.set_subst(best[1], best[2])
        else:
            self._int_split(q)

    def eliminate_int(self):
        """use an equation q == 0 of the path that is linear in an integer atom, with a non-zero coefficient, to
        eliminate that atom; only its integrality is forgotten (called when a comparison has failed)"""
        for q, S in list(self.facts.items()):
            if S != ZER: continue
            for a in q.atoms():
                if ATOMS[a].kind != "pint": continue
                co, ok = {0: {}, 1: {}}, True
                for m, c in q.t.items():
                    e = [f for b, f in m if b == a] or [0]
                    if any(isinstance(f, Val) and a in f.atoms() for b, f in m if b != a) or e[0] not in (0, 1) or isinstance(e[0], Val):
                        ok = False
                        break
                    co[e[0]][tuple((b, f) for b, f in m if b != a)] = c
                if not ok or not co[1]: continue
                A = Poly(co[1])
                if A.const() is None:
                    qa = self.canon(A)[1]
                    if 0 in (self.facts.get(qa, ALL) & self.quick(qa)): continue
                self.set_subst(a, Val(-Poly(co[0])) / Val(A))
                return True
        return False

    def _int_split(self, q):
        """q == 0 over integer atoms of which one has few possible values: split on that value"""
        at = q.atoms()
        if len(at) < 2 or any(ATOMS[a].kind != "pint" or a in self.subst for a in at):
            return
        for m in q.t:
            if any(type(e) is not int or e < 0 for a, e in m):
                return
        best = None
        for a in at:
            lo, hi, ne = self._int_bounds(a)
            if lo is not None and hi is not None and hi - lo <= 24:
                vals = [v for v in range(lo, hi + 1) if v not in ne]
            elif len(q.t) == 2 and () in q.t and all(type(c) is int for c in q.t.values()):
                c0 = abs(q.t[()])
                if c0 > 10 ** 4: continue
                vals = [s * d for d in _divisors(c0) for s in (1, -1)]
                vals = [v for v in vals if v not in ne and (lo is None or v >= lo) and (hi is None or v <= hi)]
            else:
                continue
            vals = [v for v in vals if (lambda r: r is None or r == 0)(subst_poly(q, {a: to_val(v)}).const())]
            if best is None or len(vals) < len(best[1]):
                best = (a, vals)
        if best is None:
            return
        if not best[1]:
            raise PathAbort()
        self.set_subst(best[0], to_val(best[1][self.choose(len(best[1]))]))

    def _int_bounds(self, a):
        mono = ((a, 1),)
        lo = hi = None
        ne = set()
        for f, T in list(self.facts.items()):
            if mono not in f.t or len(f.t) > 2 or (len(f.t) == 2 and () not in f.t):
                continue
            k = f.t[mono]
            r = Fraction(-f.t.get((), 0)) / Fraction(k)      # root
            if k < 0: T = flip(T)
            if T == ZER:
                return math.ceil(r), math.floor(r), ne
            if T == NZ:
                ne.add(r)
            if T <= GE:
                b = math.ceil(r) if 0 in T else math.floor(r) + 1
                lo = b if lo is None else max(lo, b)
            if T <= LE:
                b = math.floor(r) if 0 in T else math.ceil(r) - 1
                hi = b if hi is None else min(hi, b)
        return lo, hi, ne

    def _tighten(self, q):
        """integer atom with linear bounds that leave a single value: substitute it"""
        a = None
        for m, c in q.t.items():
            if m == (): continue
            if len(m) != 1 or m[0][1] != 1 or ATOMS[m[0][0]].kind != "pint":
                return
            if a is not None: return
            a = m[0][0]
        if a is None or a in self.subst:
            return
        if self.facts.get(Poly({((a, 1),): 1})) == ZER:
            return
        lo, hi, ne = self._int_bounds(a)
        if lo is None or hi is None:
            return
        while lo <= hi and lo in ne: lo += 1
        while hi >= lo and hi in ne: hi -= 1
        if lo > hi:
            raise PathAbort()
        if lo == hi:
            self.set_subst(a, to_val(lo))

    def _rational_roots(self, q):
        """q univariate in one number atom with rational coefficients -> (atom, roots) or None"""
        a = None
        deg = {}
        for m, c in q.t.items():
            if m == ():
                deg[0] = c
                continue
            if len(m) != 1 or type(m[0][1]) is not int or ATOMS[m[0][0]].kind not in ("preal", "pint"):
                return None
            if a is not None and a != m[0][0]: return None
            a = m[0][0]
            deg[m[0][1]] = c
        if a is None or max(deg) < 2 or min(deg) < 0:
            return None
        L = 1
        for c in deg.values():
            x = Fraction(c).denominator
            L = L * x // math.gcd(L, x)
        co = {k: int(Fraction(c) * L) for k, c in deg.items()}
        lowk = min(co)
        roots = [Fraction(0)] if lowk > 0 else []
        c0, cn = abs(co[lowk]), abs(co[max(co)])
        if c0 > 10 ** 6 or cn > 10 ** 6:
            return None
        for p in _divisors(c0):
            for r in _divisors(cn):
                if math.gcd(p, r) != 1: continue
                for s in (1, -1):
                    x = Fraction(s * p, r)
                    if sum(c * x ** k for k, c in co.items()) == 0:
                        roots.append(x)
        if ATOMS[a].kind == "pint":
            roots = [x for x in roots if x.denominator == 1]
        return a, sorted(set(roots))

    def set_subst(self, a, val):
        val = self.norm(val)
        if a in val.atoms():
            return
        one = {a: val}
        for b in list(self.subst):
            self.subst[b] = subst_val(self.subst[b], one)
        self.subst[a] = val
        if self.tokens and self.tokmode not in ("token0", "print"): self._stale_tokens()
        self.version += 1
        old = self.facts
        self.facts = {}
        pend = []
        for q, S in old.items():
            v = subst_poly(q, one) if a in q.atoms() else None
            if v is None:
                self.facts[q] = self.facts.get(q, ALL) & S
                if not self.facts[q]:
                    raise PathAbort()
            else:
                pend.append((v, S))
        for v, S in pend:
            self.assume(v, S)
        self.nonint = [self.norm(x) for x in self.nonint]
        for x in self.nonint:
            if self._struct_int(x):
                raise PathAbort()
        self.isint_memo = {}
        self.intvals = [self.norm(v) for v in self.intvals]
        self.numden = {self.norm(k): v for k, v in self.numden.items()}
        self.floor_memo = {}
        for k, (n, d) in list(self.numden.items()):
            c = k.const()
            if c is not None:
                c = Fraction(c)
                self._equate(n, to_val(c.numerator))
                self._equate(d, to_val(c.denominator))

    # ------------------------------------------------------------------ solver
    def slice(self, q):
        at = set(q.atoms())
        for a in list(at):
            at |= deep_atoms(a)
        rel = [(p, S) for p, S in self.facts.items()]
        out = []
        changed = True
        rest = [(p, S, deepset(p)) for p, S in rel]
        while changed:
            changed = False
            keep = []
            for p, S, ats in rest:
                if ats & at:
                    out.append((p, S))
                    at |= ats
                    changed = True
                else:
                    keep.append((p, S, ats))
            rest = keep
        return out

    def feasible(self, q, S):
        if not S:
            return False
        for m in self.get_models():
            r = eval_poly(q, m)
            if r is not None and sgn(r) in S:
                return True
        facts = self.slice(q)
        key = (frozenset(facts), q, S)
        if key in self.qcache:
            return self.qcache[key]
        fs = [(p, T) for p, T in facts if p != q] + [(q, frozenset(S))]
        try:
            em = Emit()
            txt, isint = em.build(fs)
        except TooBig:
            self.qcache[key] = True
            return True
        logic = "" if isint else "(set-logic QF_NRA)\n"
        r, out = self.solver.query(logic + txt + "\n(check-sat)", timeout=2.0)
        res = r != "unsat"
        self.qcache[key] = res
        return res

    def infeasible(self):
        """is the whole path condition unsatisfiable with the integer constraints taken into account?"""
        try:
            txt, isint = Emit().build([(p, T) for p, T in self.facts.items() if W_ID not in p.atoms()])
        except TooBig:
            return False
        r, _ = self.solver.query(("" if isint else "(set-logic QF_NRA)\n") + txt + "\n(check-sat)", timeout=3.0, kind="path")
        return r == "unsat"

    # concrete models of the parameters used to skip solver calls
    def get_models(self):
        if self.models is None:
            self.models = []
        return self.models

    def seed_models(self, gens):
        """gens: list of (atom id, callable(rng)->number). Called by the harness once parameters exist."""
        rng = random.Random(self.seed * 7919 + 13)
        self.models = []
        for _ in range(10):
            m = {a: g(rng) for a, g in gens}
            ok = True
            for q, S in self.facts.items():
                r = eval_poly(q, m)
                if r is None or sgn(r) not in S:
                    ok = False
                    break
            if ok:
                self.models.append(m)
        if not self.pre_done:
            self._apply_pre()

    def _apply_pre(self):
        self.pre_done = True
        for q, S in self.pre:
            if S == ZER: self.assume(Val(q), S)
        for q, S in self.pre:
            if S != ZER: self.assume(Val(q), S)

    def _stale_tokens(self):
        seen = []
        for w, t in self.tokens:
            n = self.norm(w)
            if n.const() is not None or n in seen:
                raise Restart()
            seen.append(n)

    def _filter_models(self, q, S):
        if self.models:
            out = []
            for m in self.models:
                r = eval_poly(q, m)
                if r is not None and sgn(r) in S:
                    out.append(m)
            self.models = out

    def _extend_models(self, a, fn):
        if self.models:
            out = []
            for m in self.models:
                try:
                    x = fn(m)
                except Exception:
                    x = None
                if x is not None:
                    m = dict(m)
                    m[a] = x
                    out.append(m)
            self.models = out

    # ------------------------------------------------------------------ integrality
    def _struct_int(self, v):
        if v.den:
            return False
        for m, c in v.num.t.items():
            if type(c) is not int:
                return False
            for a, e in m:
                if ATOMS[a].kind == "pint":
                    if type(e) is not int or e < 0:
                        return False
                elif ATOMS[a].kind == "prime":
                    # p^(non-negative integer expression)
                    if not isinstance(e, Val) or not self._struct_int(e) or not self.quick(e.num) <= GE:
                        return False
                else:
                    return False
        return True

    def isint(self, v):
        """is the (rational) value an integer? forks"""
        v = self.norm(v)
        c = v.const()
        if c is not None:
            return cnorm(c) == int(c)
        if self._struct_int(v):
            return True
        if not v.den:
            # integer-valued terms do not matter
            rest = {m: c for m, c in v.num.t.items() if not self._struct_int(Val(Poly({m: c})))}
            if len(rest) < len(v.num.t):
                v = Val(Poly(rest))
        for x in self.intvals:
            if x == v or x == -v or self._struct_int(x - v):
                return True
        for x in self.nonint:
            if x == v or x == -v:
                return False
            d = (x - v)
            if self._struct_int(d) or d.const() is not None and type(cnorm(d.const())) is int:
                return False
        # polynomial in integer atoms with rational coefficients: residue split
        if not v.den and all(ATOMS[a].kind == "pint" and type(e) is int and e > 0 for m in v.num.t for a, e in m):
            for _ in range(20):
                v = self.norm(v)
                if v.const() is not None:
                    return type(cnorm(v.const())) is int
                if self._struct_int(v):
                    return True
                # integer coefficients but a non-integer constant
                bad = [(m, c) for m, c in v.num.t.items() if type(c) is not int]
                if len(bad) == 1 and bad[0][0] == ():
                    return False
                m, c = next((m, c) for m, c in sorted(bad, key=lambda z: mono_key(z[0])) if m)
                d = Fraction(c).denominator
                a = min(a for a, e in m)
                self.residue(a, d)
            raise Inconclusive("integrality")
        r = self._unit_fraction(v)
        if r is not None:
            return r
        # general: fork
        if self.replaying():
            d = self._branch(None)
        else:
            d = self._branch([0, 1])
        if d:
            N = self.new_int("N")
            ev = v
            self._extend_models(N.id, lambda m: _int_or_none(eval_val(ev, m)))
            self._equate(v, vatom(N))
            v = self.norm(v)
            if not self._struct_int(v): self.intvals.append(v)
            return True
        self.nonint.append(v)
        if self.models:
            self.models = [m for m in self.models if _nonint(eval_val(v, m))]
        return False

    def _unit_fraction(self, v):
        """c/w for integer c and integer-valued w: an integer exactly when w divides c"""
        if len(v.num.t) != 1:
            return None
        (m, c), = v.num.t.items()
        if any(isinstance(e, Val) or type(e) is not int for a, e in m):
            return None
        up = [a for a, e in m if e > 0]
        dn = [a for a, e in m if e < 0]
        if up and (v.den or not self._coprime(up, dn)):
            return None
        w = Val(Poly({tuple((a, -e) for a, e in m if e < 0): 1}))
        for f, k in v.den:
            w = w * Val(f ** k)
        if not self._struct_int(w):
            return None
        c = Fraction(c)
        if c.denominator != 1:
            # w/denominator could still be absorbed only if w is a fraction; w is an integer, so never an integer
            self.nonint.append(v)
            return False
        n = abs(c.numerator)
        if n > 1000:
            return None
        for d in range(1, n + 1):
            if n % d == 0:
                for q in (d, -d):
                    if self.decide(w - to_val(q), ZER):
                        return True
        self.nonint.append(self.norm(v))
        return False

    def _coprime(self, up, dn):
        return all((a, b) in self.coprime or (b, a) in self.coprime for a in up for b in dn)

    def _equate(self, a, b):
        """assume a == b, substituting a real atom of a if possible"""
        d = self.norm(a - b)
        p = d.num
        c = p.const()
        if c is not None:
            if c != 0:
                raise PathAbort()
            return
        c, m, prim = split_content(p)
        rest = tuple((a, e) for a, e in m if isinstance(e, Val) or e > 0)
        s, q = self.canon(prim.mul_mono(rest) if rest else prim)
        self.assume_sign(q, ZER)

    def residue(self, a, d):
        """split integer atom a := d*k + r; returns r"""
        if self.replaying():
            r = self._branch(None)
        else:
            opts = []
            for r in range(d):
                opts.append(r)
            # keep only feasible residues when bounds pin them
            opts = [r for r in opts if self._residue_feasible(a, d, r)]
            if not opts:
                raise PathAbort()
            r = self._branch(opts)
        k = self.new_int("k")
        self._extend_models(k.id, lambda m: (m[a] - r) // d if (m.get(a) is not None and (m[a] - r) % d == 0) else None)
        self.set_subst(a, to_val(d) * vatom(k) + to_val(r))
        return r

    def _residue_feasible(self, a, d, r):
        facts = self.slice(Poly({((a, 1),): 1}))
        if not facts:
            return True
        k = atom("pint", "probe", "probe")
        q = Poly({((a, 1),): 1}) - Poly({((k.id, 1),): d}) - pconst(r)
        key = (frozenset(facts), a, d, r)
        if key in self.qcache:
            return self.qcache[key]
        try:
            txt, isint = Emit().build(facts + [(q, ZER)])
        except TooBig:
            return True
        res = True
        if isint:
            rr, _ = self.solver.query(txt + "\n(check-sat)", timeout=2.0)
            res = rr != "unsat"
        self.qcache[key] = res
        return res

    def mod(self, v, d):
        """v % d for positive concrete integer d and integer v -> concrete residue"""
        v = self.norm(v)
        for _ in range(20):
            c = v.const()
            if c is not None:
                return int(c) % d
            # all non-constant coefficients divisible by d?
            bad = [(m, c) for m, c in v.num.t.items() if m and (type(c) is not int or c % d)]
            if not bad:
                return v.num.t.get((), 0) % d
            m, c = min(bad, key=lambda z: mono_key(z[0]))
            ats = [a for a, e in m]
            if any(ATOMS[a].kind != "pint" or type(e) is not int for a, e in m):
                raise Inconclusive("mod of non-polynomial")
            self.residue(min(ats), d)
            v = self.norm(v)
        raise Inconclusive("mod")

    def floor(self, v):
        """floor -> Val (integer)"""
        v = self.norm(v)
        c = v.const()
        if c is not None:
            return to_val(math.floor(c))
        if self._struct_int(v):
            return v
        if v in self.floor_memo:
            return self.floor_memo[v]
        c = v.num.t.get((), 0) if not v.den else 0
        if not v.den and self._struct_int(v - to_val(c)):
            return v - to_val(c) + to_val(math.floor(c))
        k = self.new_int("f")
        self._extend_models(k.id, lambda m: math.floor(eval_val(v, m)))
        kv = vatom(k)
        self.assume(v - kv, GE)
        self.assume(kv + VONE - v, POSS)
        self.floor_memo[v] = kv
        return kv

    def num_den(self, v):
        """numerator and denominator of a rational value -> (Val, Val) integers, den>=1"""
        v = self.norm(v)
        c = v.const()
        if c is not None:
            c = Fraction(c)
            return to_val(c.numerator), to_val(c.denominator)
        if self.isint(v):
            return self.norm(v), VONE
        v = self.norm(v)
        if v in self.numden:
            n, d = self.numden[v]
            return self.norm(n), self.norm(d)
        if len(v.num.t) == 1 and not v.den:
            (m, c), = v.num.t.items()
            if abs(c) == 1 and all(type(e) is int and ATOMS[a].kind == "pint" for a, e in m):
                up, dn = [a for a, e in m if e > 0], [a for a, e in m if e < 0]
                if self._coprime(up, dn):
                    n = Val(Poly({tuple((a, e) for a, e in m if e > 0): c}))
                    d = Val(Poly({tuple((a, -e) for a, e in m if e < 0): 1}))
                    if self.decide(d, POSS):
                        return self.norm(n), self.norm(d)
                    return self.norm(-n), self.norm(-d)
        # related to a known one by sign / integer shift / inversion
        for w, (n, d) in self.numden.items():
            if w == -v:
                return self.norm(-n), self.norm(d)
            df = self.norm(v - w)
            if self._struct_int(df):
                return self.norm(n + df * d), self.norm(d)
            if not w.is_zero() and self.norm(w.inv()) == v:
                n, d = self.norm(n), self.norm(d)
                if self.decide(n, POSS):
                    return d, n
                return -d, -n
        # polynomial in pint with constant denominators
        if not v.den and all(ATOMS[a].kind == "pint" and type(e) is int and e > 0 for m in v.num.t for a, e in m):
            D = 1
            for c in v.num.t.values():
                x = Fraction(c).denominator
                D = D * x // math.gcd(D, x)
            # reduce common factors of numerator with D by residues
            n = v * to_val(D)
            for p in sorted(factorint(D)):
                while D % p == 0:
                    r = self.mod(n, p)
                    n = self.norm(n)
                    if r:
                        break
                    n = n / to_val(p)
                    D //= p
            return n, to_val(D)
        N, D = self.new_int("n"), self.new_int("d")
        fr = v
        self._extend_models(N.id, lambda m: _frac(eval_val(fr, m)).numerator)
        self._extend_models(D.id, lambda m: _frac(eval_val(fr, m)).denominator)
        nv, dv = vatom(N), vatom(D)
        self.assume(dv - VONE, POSS)
        self.coprime.append((N.id, D.id))
        # v*D = N
        self._equate(v * dv, nv)
        v = self.norm(v)
        self.numden[v] = (nv, dv)
        self.nonint.append(v)
        return self.norm(nv), self.norm(dv)

    # ------------------------------------------------------------------ concretisation
    def concretize(self, v, why="index"):
        v = self.norm(v)
        c = v.const()
        if c is not None:
            return int(c)
        for _ in range(80):
            v = self.norm(v)
            c = v.const()
            if c is not None:
                return int(c)
            if self.replaying():
                # decision encoded as ("v", value)
                d = self._branch(None)
            else:
                if self.conc_left <= 0:
                    raise Inconclusive("unbounded concretisation (%s)" % why)
                x = self._some_value(v)
                if x is None:
                    raise PathAbort()
                if self.feasible(self.canon((v - to_val(x)).num)[1], NZ):
                    d = self._branch([("eq", x), ("ne", x)])
                else:
                    d = self._branch([("eq", x)])
            tag, x = d
            self.concretized += 1
            if tag == "eq":
                self._equate(v, to_val(x))
                return x
            self.conc_left -= 1
            self.assume(v - to_val(x), NZ)
        raise Inconclusive("concretisation")

    def _some_value(self, v):
        q = v.num
        facts = self.slice(q)
        for bound in (3, 10, 100, None):
            r = self.new_int("val")
            fs = list(facts) + [((v - vatom(r)).num, ZER)]
            if bound:
                fs += [((to_val(bound) - vatom(r)).num, GE), ((to_val(bound) + vatom(r)).num, GE)]
            em = Emit()
            txt, isint = em.build(fs)
            name = "v%d" % r.id
            rr, out = self.solver.query(txt + "\n(check-sat)\n(get-value (%s))" % name, timeout=3.0)
            if rr == "sat":
                m = out.replace("(", " ").replace(")", " ").split()
                try:
                    if m[1] == "-":
                        x = -Fraction(m[2])
                    else:
                        x = Fraction(m[1])
                except Exception:
                    return None
                if x.denominator == 1:
                    return int(x)
        return None

    def token(self, v):
        """text for a symbolic number: equal values get equal text (forks on equality)"""
        v = self.norm(v)
        c = v.const()
        if c is not None:
            return str(Fraction(c))
        if self.tokmode == "print":
            return self._print_token(v)
        for w, t in self.tokens:
            if self.norm(w) == v:
                return t
        if self.tokmode != "token0":
            for w, t in self.tokens:
                if self.decide(v - w, ZER):
                    return t
            v = self.norm(v)
            if v.const() is not None:
                return str(Fraction(v.const()))
        n = len(self.tokens)
        if self.tokmode == "tokenrev":
            n = 9999 - n
        t = "5%04d⁄" % n
        self.tokens.append((v, t))
        return t

    def _print_token(self, v):
        if self.decide(v, NEGS):
            return "-" + self._print_pos(-v)
        return self._print_pos(v)

    def _print_pos(self, v):
        v = self.norm(v)
        if v.const() is not None:
            return str(Fraction(v.const()))
        n, d = self.num_den(v)
        s = self._int_tok(n)
        if d.const() == 1:
            return s
        return s + "/" + self._int_tok(d)

    def print_float(self, v):
        sign = ""
        if self.decide(v, NEGS): sign, v = "-", -v
        v = self.norm(v)
        if v.const() is not None: return sign + repr(float(Fraction(v.const())))
        for w, t in self.tokens:
            if self.norm(w) == v: return sign + t
        t = "⟦%d⟧" % len(self.tokens)
        self.tokens.append((v, t))
        return sign + t

    def _int_tok(self, v):
        v = self.norm(v)
        if v.const() is not None:
            return str(int(v.const()))
        for w, t in self.tokens:
            if self.norm(w) == v:
                return t
        t = "⟦%d⟧" % len(self.tokens)
        self.tokens.append((v, t))
        return t

    # ------------------------------------------------------------------ models for replay
    def param_model(self, extra=(), goals=(), tries=6, timeout=4.0):
        """yield assignments {param name: Fraction} satisfying the path condition (and extra/goals)"""
        names = list(self.params)
        if not names:
            yield {}
            return
        facts = list(self.facts.items()) + list(extra)
        blocked = []
        for attempt in range(tries):
            for bound in ((4,), (40,), (None,)):
                fs = list(facts)
                fs += blocked
                em = Emit()
                b = bound[0]
                try:
                    ats = set()
                    for nme in names:
                        ats |= self.norm(self.params[nme]).atoms()
                    cons = []
                    for a in sorted(ats):
                        pa = Poly({((a, 1),): 1})
                        if b is not None:
                            fs.append((pa + pconst(b), GE))
                            fs.append((pconst(b) - pa, GE))
                        else:
                            fs.append((pa * pa + pconst(1), POSS))
                    txt, isint = em.build(fs, goals=goals)
                except TooBig:
                    return
                logic = "" if isint else "(set-logic QF_NRA)\n"
                r, out = self.solver.query(logic + txt + "\n(check-sat)\n(get-model)", timeout=timeout, want_model=True, kind="model")
                if r == "sat":
                    break
            if r != "sat":
                return
            m = parse_model(out)
            vals = {}
            for a in ats:
                x = m.get("v%d" % a)
                if x is None:
                    x = Fraction(1)
                if ATOMS[a].kind == "pint":
                    x = Fraction(math.floor(x + Fraction(1, 2)))
                vals[a] = x
            try:
                res = {nme: _frac(eval_val(self.norm(self.params[nme]), vals)) for nme in names}
            except Exception:
                res = None
            if res is not None:
                yield res
            # block: move away from this model
            if ats:
                s = ZERO
                for a in sorted(ats):
                    pa = Poly({((a, 1),): 1}) - pconst(vals[a])
                    s = s + pa * pa
                blocked.append((s - pconst(Fraction(1, 4)), POSS))

def _int_or_none(x):
    if x is None or Fraction(x).denominator != 1:
        return None
    return int(x)
def _nonint(x):
    return x is not None and Fraction(x).denominator != 1
def _frac(x):
    return Fraction(x)

_DEEP = {}
def deep_atoms(a):
    r = _DEEP.get(a)
    if r is None:
        _DEEP[a] = frozenset()
        A = ATOMS[a]
        r = set()
        if A.kind == "T":
            for b in A.data.atoms():
                r.add(b)
                r |= deep_atoms(b)
        r = frozenset(r)
        _DEEP[a] = r
    return r
_CONST = {}
def const_atom(a):
    """atom denoting a fixed number (exponents not considered)"""
    r = _CONST.get(a)
    if r is None:
        A = ATOMS[a]
        k = A.kind
        if k in ("I", "W", "const", "prime"): r = True
        elif k == "T": r = all_const(Val(A.data))
        elif k == "LN": r = A.data is not None and const_atom(A.data)
        elif k == "ang": r = all_const(A.data[1])
        else: r = False
        _CONST[a] = r
    return r
def all_const(v):
    return all(const_atom(a) for a in v.atoms())
_CSIGN = {}
def const_sign(v):
    """sign of a constant by 40-digit evaluation; None when too close to zero or not real"""
    if v in _CSIGN:
        return _CSIGN[v]
    from . import neval as N, selftest as ST
    try:
        x = ST.num_val(v, {})
        re, im = N.mpmath.re(x), N.mpmath.im(x)
        if abs(im) > N.mpf(10) ** -25 * (1 + abs(re)): r = None
        elif abs(re) < N.mpf(10) ** -25: r = None
        else: r = int(N.mpmath.sign(re))
    except (ZeroDivisionError, KeyError, ValueError, OverflowError):
        r = None
    if len(_CSIGN) > 20000: _CSIGN.clear()
    _CSIGN[v] = r
    return r
_DSET = {}
def deepset(p):
    r = _DSET.get(p)
    if r is None:
        r = set(p.atoms())
        for a in list(r):
            r |= deep_atoms(a)
        r.discard(W_ID)
        r.discard(I_ID)
        r = frozenset(r)
        if len(_DSET) > 50000:
            _DSET.clear()
        _DSET[p] = r
    return r

def eval_poly(p, m):
    """exact value of a poly of plain atoms under m (dict id->number); None if not evaluable"""
    tot = 0
    for mono, c in p.t.items():
        z = c
        for a, e in mono:
            x = m.get(a)
            if x is None:
                if ATOMS[a].kind == "prime" and isinstance(e, Val):
                    x = ATOMS[a].data
                else:
                    return None
            if isinstance(e, Val):
                e = eval_val(e, m)
                if e is None or Fraction(e).denominator != 1 or abs(e) > 200:
                    return None
                e = int(e)
            elif type(e) is not int:
                return None
            if e < 0 and x == 0:
                return None
            z = z * Fraction(x) ** e
        tot = tot + z
    return tot

def eval_val(v, m):
    n = eval_poly(v.num, m)
    if n is None:
        return None
    for f, k in v.den:
        d = eval_poly(f, m)
        if d is None or d == 0:
            return None
        n = Fraction(n) / Fraction(d) ** k
    return n

# ====================================================================== proxies
_RealFraction_new = Fraction.__new__
PLAIN = (int, Fraction)

def val_of(x):
    """number -> Val or None"""
    t = type(x)
    if t is SymQ or t is SymInt or t is SymFloat:
        return x.v
    if t is int or t is Fraction or t is bool:
        return Val(pconst(x))
    if isinstance(x, (int, Fraction)):
        return Val(pconst(cnorm(Fraction(int(x.numerator), int(x.denominator)))))
    return None

def mkq(v):
    v = ENG.norm(v)
    c = v.const()
    if c is not None:
        return Fraction(c)
    o = object.__new__(SymQ)
    o.v = v
    return o

def mki(v):
    v = ENG.norm(v)
    c = v.const()
    if c is not None:
        return int(c)
    o = object.__new__(SymInt)
    o.v = v
    return o

def mkf(v):
    o = object.__new__(SymFloat)
    o.v = ENG.norm(v)
    return o

def _isinf(x):
    return type(x) is float and (x != x or x in (math.inf, -math.inf))

def cmp_float(v, x, S):
    """sign(v - x) in S for a Python float x"""
    if x != x:
        return S == NZ
    if x == math.inf:
        return -1 in S
    if x == -math.inf:
        return 1 in S
    if x == int(x):
        return ENG.decide(v - to_val(int(x)), S)
    if x == math.pi or x == math.e:
        c = VPI if x == math.pi else VE
        if S == ZER:
            return False        # stated: a rational parameter is never the double of pi or e
        if S == NZ:
            return True
        return ENG.decide(v - c, S)
    return ENG.decide(v - to_val(Fraction(x)), S)

class _Num:
    """shared operator implementations; result type decided by rank int<q<float"""
    __slots__ = ()

def rank(x):
    t = type(x)
    if t is SymFloat or t is float: return 3
    if t is SymQ or isinstance(x, Fraction): return 2
    if t is SymInt or isinstance(x, int): return 1
    return 0

def fval(x):
    """float operand -> Val (real abstraction); None for inf/nan"""
    if type(x) is float:
        if _isinf(x):
            return None
        if x == math.pi: return VPI
        if x == math.e: return VE
        if x == int(x): return to_val(int(x))
        return to_val(Fraction(x))
    return val_of(x)

def binop(op, a, b):
    ra, rb = rank(a), rank(b)
    if not ra or not rb:
        return NotImplemented
    r = max(ra, rb)
    if r == 3:
        if _isinf(a) or _isinf(b):
            return _infop(op, a, b)
        va, vb = fval(a), fval(b)
    else:
        va, vb = val_of(a), val_of(b)
    mk = (None, mki, mkq, mkf)[r]
    if op == "+": return mk(va + vb)
    if op == "-": return mk(va - vb)
    if op == "*": return mk(va * vb)
    if op == "/":
        if ENG.decide(vb, ZER):
            raise ZeroDivisionError("division by zero")
        v = ENG.norm(va) / ENG.norm(vb)
        return mkf(v) if r != 2 else mkq(v)
    if op in ("//", "%"):
        if ENG.decide(vb, ZER):
            raise ZeroDivisionError("division by zero")
        if r == 1:
            c = ENG.norm(vb).const()
            if c is not None and c > 0:
                rr = ENG.mod(va, int(c))
                if op == "%":
                    return rr
                return mki((ENG.norm(va) - to_val(rr)) / to_val(c))
        if r == 3:
            raise Inconclusive("float modulo")
        fl = ENG.floor(ENG.norm(va) / ENG.norm(vb))
        if op == "//":
            return mki(fl)
        return mk(va - vb * fl)
    raise AssertionError(op)

def _infop(op, a, b):
    sa = a if type(a) is float else None
    sb = b if type(b) is float else None
    def sg(x):
        if type(x) is float: return float(sgn(x)) if x == x else x
        v = val_of(x)
        if ENG.decide(v, ZER): return 0.0
        if rank(x) == 2 and _tiny(v): return 0.0
        return 1.0 if ENG.decide(v, POSS) else -1.0
    for x in (a, b):
        if rank(x) in (1, 2): _fits(val_of(x))
    if op == "+": return a + 1.0 if sa is not None and _isinf(a) else b + 1.0
    if op == "-": return a - 1.0 if sa is not None and _isinf(a) else 1.0 - b
    if op == "*":
        x = a if (sa is not None and _isinf(a)) else sg(a)
        y = b if (sb is not None and _isinf(b)) else sg(b)
        return x * y
    if op == "/":
        x = a if (sa is not None and _isinf(a)) else sg(a)
        y = b if (sb is not None and _isinf(b)) else sg(b)
        if y == 0: raise ZeroDivisionError("division by zero")
        return x / y
    raise Inconclusive("inf " + op)

# Python converts the exact operand to a double first: huge numbers raise, tiny ones become 0
_BIG = to_val(2 ** 1024)
def _fits(v):
    for w in (v - _BIG, -v - _BIG):
        if ENG.decide(w, GE): raise OverflowError("integer division result too large for a float")
def _tiny(v):
    c = Fraction(1, 2 ** 1076)
    return ENG.decide(v - to_val(c), NEGS) and ENG.decide(v + to_val(c), POSS)

def symcmp(a, b, S):
    if type(b) is float:
        return cmp_float(a.v, b, S)
    if isinstance(b, complex):
        if S in (ZER, NZ):
            return S == NZ if b.imag != 0 else cmp_float(a.v, b.real, S)
        return NotImplemented
    vb = val_of(b)
    if vb is None:
        return NotImplemented
    return ENG.decide(a.v - vb, S)

def sympow(a, b):
    """a ** b with at least one symbolic; follows Python's int/Fraction/float power rules"""
    ra, rb = rank(a), rank(b)
    if not ra or not rb:
        return NotImplemented
    va = fval(a) if ra == 3 else val_of(a)
    vb = fval(b) if rb == 3 else val_of(b)
    if va is None or vb is None:
        return _infpow(a, b)
    if ra == 1 and type(b) is float and not b.is_integer():
        e = Fraction(b).limit_denominator(64)
        if float(e) == b:
            return root_float(ENG.norm(va), to_val(e))
    if ra == 1 and type(a) is int and type(b) is SymFloat and a >= 0:
        return root_float(va, vb)
    if ra == 3 or rb == 3:
        return float_pow(va, vb)
    if rb == 1 or ENG.isint(vb):
        va, vb = ENG.norm(va), ENG.norm(vb)
        c = vb.const()
        if c is not None:
            c = int(c)
            if abs(c) > 60:
                raise Inconclusive("huge exponent")
            if c < 0:
                if ENG.decide(va, ZER):
                    raise ZeroDivisionError("0 to a negative power")
                va = ENG.norm(va)
            r = va ** c
        else:
            ca = va.const()
            if ca is None or ca == 0:
                # symbolic ** symbolic: bounded enumeration of the exponent
                n = ENG.concretize(vb, "symbolic integer exponent")
                return sympow_pub(a, b, n)
            if ca < 0:
                even = ENG.mod(vb, 2) == 0
                vb = ENG.norm(vb)
                r = num_pow(-ca, vexp(vb))
                if not even:
                    r = -r
            else:
                r = num_pow(ca, vexp(vb))
            c = None
        if ra == 1 and rb == 1:
            if c is None:
                if not ENG.decide(vb, GE):
                    return mkf(r)
                return mki(r)
            return mki(r) if c >= 0 else mkf(r)
        return mkq(r)
    # non-integer rational exponent: Python computes a float (or complex)
    return root_float(ENG.norm(va), ENG.norm(vb))

def sympow_pub(a, b, n):
    va = val_of(a)
    va = ENG.norm(va)
    if n < 0 and ENG.decide(va, ZER):
        raise ZeroDivisionError("0 to a negative power")
    va = ENG.norm(va)
    r = va ** n
    if rank(a) == 1 and rank(b) == 1:
        return mki(r) if n >= 0 else mkf(r)
    return mkq(r)

def _infpow(a, b):
    for t in (a, b):
        if rank(t) in (1, 2): _fits(val_of(t))
    if type(a) is float and _isinf(a) and type(b) is not float:
        v = val_of(b)
        if ENG.decide(v, ZER): return 1.0
        if ENG.decide(v, NEGS): return 0.0
        if a > 0: return math.inf
        if ENG.isint(v):
            return math.inf if ENG.mod(ENG.norm(v), 2) == 0 else -math.inf
        return math.inf
    if type(b) is float and _isinf(b):
        v = val_of(a)
        av = v if ENG.decide(v, GE) else -v
        if ENG.decide(av - VONE, ZER): return 1.0
        big = ENG.decide(av - VONE, POSS)
        if b > 0: return math.inf if big else 0.0
        if not big and ENG.decide(av, ZER): return math.inf
        return 0.0 if big else math.inf
    raise Inconclusive("inf pow")

def float_pow(va, vb):
    if ENG.decide(va, ZER):
        if ENG.decide(vb, NEGS):
            raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        if ENG.decide(vb, ZER):
            return mkf(VONE)
        return mkf(VZERO)
    va, vb = ENG.norm(va), ENG.norm(vb)
    c = vb.const()
    if c is not None and type(cnorm(c)) is int:
        return mkf(va ** int(c))
    if not ENG.decide(va, POSS):
        raise Inconclusive("complex float power")
    from .den import vpow
    return mkf(vpow(ENG.norm(va), ENG.norm(vb)))

class SymComplex:
    """float power of a negative number: a complex number that is never an integer"""
    def __init__(self): self.real = 0.5
    def __eq__(self, o): return False
    def __ne__(self, o): return True
    __hash__ = None

class RootFloat:
    """x ** (p/q) as the float Python computes, for integer/rational x>=0. Supports the integrality test
    int(f.real) == f, and round(f)."""
    def __init__(self, v, e):
        self.base, self.e = v, e
        self.ans = None
    @property
    def real(self):
        return self
    @property
    def imag(self):
        return 0.0
    def _exact(self):
        """is base**e an integer? If so returns its Val. (base an integer >=0)"""
        if self.ans is None:
            k = ENG.choose(2)
            p, q = Fraction(self.e).numerator, Fraction(self.e).denominator
            v = ENG.norm(self.base)
            if k == 1:
                r = ENG.new_int("rt")
                rv = vatom(r)
                ENG.assume(rv, GE)
                ENG._equate(v, rv ** q)
                self.ans = rv ** p
            else:
                ENG.roots[(v, q)] = False
                ENG.assume(v - VONE, POSS)     # 0 and 1 are perfect powers
                self.ans = False
        return self.ans
    def __int__(self):
        raise Inconclusive("int() of symbolic root outside the shim")
    def __eq__(self, o):
        if type(o) is RootInt:
            return o.root is self and self._exact() is not False
        if type(o) in (int, float) and o == int(o) and o >= 0:
            e = Fraction(self.e)
            return ENG.decide(ENG.norm(self.base) ** e.numerator - to_val(int(o) ** e.denominator), ZER)
        raise Inconclusive("comparison of a symbolic float root")
    def __ne__(self, o):
        return not self == o
    __hash__ = None
    def __round__(self, n=None):
        if n is not None:
            raise Inconclusive("round of float root")
        x = self._exact()
        if x is not False:
            return mki(x)
        r = ENG.new_int("rnd")
        rv = vatom(r)
        ENG.assume(rv, POSS)
        q = Fraction(self.e)
        if q.numerator != 1:
            raise Inconclusive("round of float root")
        n = q.denominator
        v = ENG.norm(self.base)
        ENG.assume(v - (rv - VONE) ** n, POSS)
        ENG.assume((rv + VONE) ** n - v, POSS)
        ENG.assume(v - rv ** n, NZ)
        return mki(rv)

class RootInt:
    """int(f) for a RootFloat f"""
    def __init__(self, root):
        self.root = root
    def __eq__(self, o):
        if o is self.root:
            return self.root._exact() is not False
        raise Inconclusive("int of root compared")
    def value(self):
        x = self.root._exact()
        if x is False:
            raise Inconclusive("truncated root used")
        return x

def root_float(va, vb):
    c = vb.const()
    if c is None:
        if ENG.decide(va, ZER):
            if ENG.decide(vb, NEGS): raise ZeroDivisionError("0.0 cannot be raised to a negative power")
            return mkf(VZERO)
        if ENG.decide(va - VONE, ZER): return mkf(VONE)
        vb = ENG.norm(vb)
        b = ENG.norm(va).const()
        if b is not None and b > 0 and type(cnorm(b)) is int:
            # rational iff the denominator of the exponent divides the perfect-power exponent of the base
            n, d = ENG.num_den(vb)
            for k in range(2, 40):
                r = round(b ** (1.0 / k)) if b < 10 ** 300 else 0
                if r ** k == b and ENG.decide(ENG.norm(d) - to_val(k), ZER):
                    return mkf(num_pow(r, vexp(ENG.norm(n))))
        return OpaqueFloat()
    if va.const() is not None:
        x = va.const()
        if x == 0 and c < 0: raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        return float(x) ** float(c) if Fraction(x).denominator != 1 else int(x) ** float(c)
    if ENG.decide(va, ZER):
        if c < 0: raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        return 0.0
    if ENG.decide(va, NEGS):
        return SymComplex()
    if not ENG._struct_int(ENG.norm(va)) or c < 0:
        return OpaqueFloat()
    return RootFloat(ENG.norm(va), c)

class OpaqueFloat:
    """a float the code only looks at with isinstance"""
    real = property(lambda self: self)
    __hash__ = None
    def __eq__(self, o):
        if type(o) is OpaqueInt: return False
        if type(o) in (int, float): return False       # an irrational number
        raise Inconclusive("opaque float compared")
    def __ne__(self, o): return not self == o
    def __round__(self, n=None): return RoundedRoot()
class RoundedRoot:
    """round() of an irrational root: its powers never give the radicand back"""
    __hash__ = None
    def __pow__(self, o): return self
    def __eq__(self, o): return False
    def __ne__(self, o): return True
class OpaqueInt:
    def __init__(self, f): self.f = f
    def __eq__(self, o):
        if o is self.f: return False
        raise Inconclusive("opaque int")

def symabs(x):
    if ENG.decide(x.v, NEGS):
        return -x
    return x

class SymQ(Fraction):
    __slots__ = ("v",)
    def __new__(cls, *a, **k):
        raise TypeError
    @property
    def numerator(self): return mki(ENG.num_den(self.v)[0])
    @property
    def denominator(self): return mki(ENG.num_den(self.v)[1])
    _numerator = numerator
    _denominator = denominator
    def __add__(a, b): return binop("+", a, b)
    def __radd__(b, a): return binop("+", a, b)
    def __sub__(a, b): return binop("-", a, b)
    def __rsub__(b, a): return binop("-", a, b)
    def __mul__(a, b): return binop("*", a, b)
    def __rmul__(b, a): return binop("*", a, b)
    def __truediv__(a, b): return binop("/", a, b)
    def __rtruediv__(b, a): return binop("/", a, b)
    def __floordiv__(a, b): return binop("//", a, b)
    def __rfloordiv__(b, a): return binop("//", a, b)
    def __mod__(a, b): return binop("%", a, b)
    def __rmod__(b, a): return binop("%", a, b)
    def __pow__(a, b): return sympow(a, b)
    def __rpow__(b, a): return sympow(a, b)
    def __neg__(a): return mkq(-a.v)
    def __pos__(a): return a
    def __abs__(a): return symabs(a)
    def __eq__(a, b): return symcmp(a, b, ZER)
    def __ne__(a, b):
        r = symcmp(a, b, ZER)
        return r if r is NotImplemented else not r
    def __lt__(a, b): return symcmp(a, b, NEGS)
    def __le__(a, b): return symcmp(a, b, LE)
    def __gt__(a, b): return symcmp(a, b, POSS)
    def __ge__(a, b): return symcmp(a, b, GE)
    def __bool__(a): return not ENG.decide(a.v, ZER)
    def __hash__(a):
        c = ENG.norm(a.v).const()
        return 12345 if c is None else hash(Fraction(c))
    def __str__(a): return SymStr.make(a)
    def __repr__(a): return "Fraction(%s)" % (ENG.token(a.v) if ENG else "?")
    def __format__(a, spec): return str(a)
    def __int__(a): raise Inconclusive("int(SymQ)")
    def __float__(a): raise Inconclusive("float(SymQ)")
    def __trunc__(a): raise Inconclusive("trunc(SymQ)")
    def __floor__(a): return mki(ENG.floor(a.v))
    def __ceil__(a): return mki(-ENG.floor(-a.v))
    def __round__(a, n=None):
        if n is not None: raise Inconclusive("round")
        raise Inconclusive("round")
    def __copy__(a): return a
    def __deepcopy__(a, memo): return a
    def __reduce__(a): raise Inconclusive("pickle")
    @property
    def real(a): return a
    @property
    def imag(a): return 0
    def conjugate(a): return a
    def limit_denominator(a, n=1000000): raise Inconclusive("limit_denominator")
    def as_integer_ratio(a): return (a.numerator, a.denominator)
    def is_integer(a): return ENG.isint(a.v)

class SymStr(str):
    @staticmethod
    def make(q):
        t = ENG.token(q.v)
        c = ENG.norm(q.v).const()
        if c is not None:
            return str(Fraction(c))
        s = str.__new__(SymStr, t)
        s.q = q
        return s
    def __eq__(self, o):
        if type(o) is SymStr:
            return str.__eq__(self, o)
        if type(o) is str:
            try:
                f = Fraction(o)
            except (ValueError, ZeroDivisionError):
                return str.__eq__(self, o)
            if str(f) != o:
                return False
            return ENG.decide(self.q.v - to_val(f), ZER)
        return NotImplemented
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r
    def __hash__(self):
        c = ENG.norm(self.q.v).const()
        if c is not None:
            return hash(str(Fraction(c)))
        return str.__hash__(self)

class SymInt:
    __slots__ = ("v",)
    numerator = property(lambda a: a)
    denominator = property(lambda a: 1)
    real = property(lambda a: a)
    imag = property(lambda a: 0)
    def __add__(a, b): return binop("+", a, b)
    def __radd__(b, a): return binop("+", a, b)
    def __sub__(a, b): return binop("-", a, b)
    def __rsub__(b, a): return binop("-", a, b)
    def __mul__(a, b): return binop("*", a, b)
    def __rmul__(b, a): return binop("*", a, b)
    def __truediv__(a, b): return binop("/", a, b)
    def __rtruediv__(b, a): return binop("/", a, b)
    def __floordiv__(a, b): return binop("//", a, b)
    def __rfloordiv__(b, a): return binop("//", a, b)
    def __mod__(a, b): return binop("%", a, b)
    def __rmod__(b, a): return binop("%", a, b)
    def __pow__(a, b, m=None): return sympow(a, b)
    def __rpow__(b, a): return sympow(a, b)
    def __neg__(a): return mki(-a.v)
    def __pos__(a): return a
    def __abs__(a): return symabs(a)
    def __eq__(a, b): return symcmp(a, b, ZER)
    def __ne__(a, b):
        r = symcmp(a, b, ZER)
        return r if r is NotImplemented else not r
    def __lt__(a, b): return symcmp(a, b, NEGS)
    def __le__(a, b): return symcmp(a, b, LE)
    def __gt__(a, b): return symcmp(a, b, POSS)
    def __ge__(a, b): return symcmp(a, b, GE)
    def __bool__(a): return not ENG.decide(a.v, ZER)
    def __hash__(a):
        c = ENG.norm(a.v).const()
        return 12345 if c is None else hash(int(c))
    def __str__(a): return SymStr.make(a)
    __repr__ = __str__
    def __format__(a, spec): return str(a)
    def __index__(a): return ENG.concretize(a.v)
    def __int__(a): return ENG.concretize(a.v, "int()")
    def __float__(a): raise Inconclusive("float(SymInt)")
    def __trunc__(a): return a
    def __floor__(a): return a
    def __ceil__(a): return a
    def __round__(a, n=None): return a
    def __and__(a, b):
        if b == 1: return a % 2
        raise Inconclusive("bit operation")
    def __rand__(a, b): return a & b
    def bit_length(a): raise Inconclusive("bit_length")
    def is_integer(a): return True
    def conjugate(a): return a

class SymFloat:
    """a Python float in real arithmetic (rounding abstracted away)"""
    __slots__ = ("v",)
    real = property(lambda a: a)
    imag = property(lambda a: 0.0)
    def __add__(a, b): return binop("+", a, b)
    def __radd__(b, a): return binop("+", a, b)
    def __sub__(a, b): return binop("-", a, b)
    def __rsub__(b, a): return binop("-", a, b)
    def __mul__(a, b): return binop("*", a, b)
    def __rmul__(b, a): return binop("*", a, b)
    def __truediv__(a, b): return binop("/", a, b)
    def __rtruediv__(b, a): return binop("/", a, b)
    def __floordiv__(a, b): return binop("//", a, b)
    def __mod__(a, b): return binop("%", a, b)
    def __pow__(a, b): return sympow(a, b)
    def __rpow__(b, a): return sympow(a, b)
    def __neg__(a): return mkf(-a.v)
    def __pos__(a): return a
    def __abs__(a): return symabs(a)
    def __eq__(a, b): return symcmp(a, b, ZER)
    def __ne__(a, b):
        r = symcmp(a, b, ZER)
        return r if r is NotImplemented else not r
    def __lt__(a, b): return symcmp(a, b, NEGS)
    def __le__(a, b): return symcmp(a, b, LE)
    def __gt__(a, b): return symcmp(a, b, POSS)
    def __ge__(a, b): return symcmp(a, b, GE)
    def __bool__(a): return not ENG.decide(a.v, ZER)
    def __hash__(a): return 12346
    def __str__(a):
        v = ENG.norm(a.v)
        if v.const() is not None:
            return repr(float(Fraction(v.const())))
        if ENG.tokmode == "print":
            return ENG.print_float(v)
        return "5.0F" + ENG.token(v)
    __repr__ = __str__
    def __format__(a, spec): return str(a)
    def is_integer(a): return ENG.isint(a.v)
    def __round__(a, n=None):
        if n is None and ENG.isint(a.v): return mki(a.v)
        raise Inconclusive("round(SymFloat)")
    def __float__(a): raise Inconclusive("float(SymFloat)")
    def __int__(a): raise Inconclusive("int(SymFloat)")

# ---------------------------------------------------------------------- shims for names in simpy's modules
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or type(x) is SymInt
    def __subclasscheck__(cls, c):
        return issubclass(c, int) or c is SymInt
    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            t = type(x)
            if t is SymInt: return x
            if t is SymQ or t is SymFloat:
                if ENG.isint(x.v): return mki(x.v)
                if ENG.decide(x.v, GE): return mki(ENG.floor(x.v))
                return mki(-ENG.floor(-x.v))
            if t is RootFloat: return RootInt(x) if x.ans is None or x.ans is False else mki(x.ans)
            if t is RootInt: return mki(x.value())
            if t is OpaqueFloat: return OpaqueInt(x)
        return int(*a, **k)
class ShimInt(metaclass=_IntMeta):
    pass

EXACT_FLOAT = [False]
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or type(x) in (SymFloat, RootFloat, OpaqueFloat)
    def __subclasscheck__(cls, c):
        return issubclass(c, float) or c is SymFloat
    def __call__(cls, *a, **k):
        if len(a) == 1:
            x = a[0]
            t = type(x)
            if t is SymFloat: return x
            if t is SymQ or t is SymInt: return mkf(x.v)
            if EXACT_FLOAT[0] and ENG is not None and (t is Fraction or t is int): return mkf(to_val(x))
        return float(*a, **k)
class ShimFloat(metaclass=_FloatMeta):
    pass

class ShimMath:
    """stand-in for the math module inside simpy: real-arithmetic meaning for symbolic floats"""
    def __getattr__(self, name):
        f = getattr(math, name)
        if not callable(f):
            return f
        return wrap_math(f, name)

_SYM = None
def wrap_math(f, name=None):
    name = name or f.__name__
    def g(*a):
        if any(type(x) in (SymFloat, SymQ, SymInt) for x in a):
            from . import den
            vs = [fval(x) for x in a]
            return den.math_sym(name, vs, a)
        return f(*a)
    g.__name__ = name
    g._wrapped = f
    return g

def _frac_new(cls, numerator=0, denominator=None, **k):
    tn, td = type(numerator), type(denominator)
    if ENG is not None and (tn in (SymQ, SymInt, SymFloat) or td in (SymQ, SymInt) or tn is RootInt):
        if tn is SymFloat:
            raise Inconclusive("Fraction(float)")
        if denominator is None:
            return mkq(numerator.v)
        nv, dv = val_of(numerator), val_of(denominator)
        if nv is None or dv is None:
            raise TypeError("both arguments should be Rational instances")
        if ENG.decide(dv, ZER):
            raise ZeroDivisionError("Fraction(%s, 0)")
        return mkq(ENG.norm(nv) / ENG.norm(dv))
    return _RealFraction_new(cls, numerator, denominator, **k)

def install_fraction():
    Fraction.__new__ = staticmethod(_frac_new)
