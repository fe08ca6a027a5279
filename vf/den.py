"""The oracle: denotation of expression trees as generalised rational functions.

Works on real simpy trees (by class and field) and on reference tuples, under the engine's path condition; sign
questions about bases/arguments are forked. All symbols denote +-(positive atom): the sign scenario of every symbol
is a fork (engine.scen)."""
from fractions import Fraction
from .poly import *
from . import poly as P
from . import sym as S
from .sym import POSS, NEGS, ZER, NZ, GE, LE

HALF = Fraction(1, 2)

def E():
    return S.ENG

def ln_atom(base_id):
    return atom("LN", base_id, "LN(%s)" % ATOMS[base_id].name, base_id)

def t_atom(p):
    return atom("T", p, "T{%r}" % p, p)

def sym_atom(name):
    return atom("sym", name, name)

def has_syms(v):
    """does the value depend on a symbol (or anything but params/constants)?"""
    for a in v.atoms():
        k = ATOMS[a].kind
        if k in ("sym", "W", "ang", "opq"):
            return True
        if k == "T" and has_syms(Val(ATOMS[a].data)):
            return True
        if k == "LN" and ATOMS[a].data is not None and has_syms(vatom(ATOMS[a].data)):
            return True
    return False

def reduce_val(v):
    """same value with integer parts of root atoms folded"""
    mult = {}
    p = reduce_poly(v.num, mult)
    mult = [(a, n) for a, n in mult.items() if n]
    if mult:
        p = p.mul_mono(tuple(sorted(mult)))
    return Val.make(p, dict(v.den))

def reduce_poly(p, mult=None):
    """fold integer parts of root atoms and primes; the value of the result is p / prod atom^n for (atom, n) in mult
    (so only good for zero tests unless mult is used)"""
    for _ in range(30):
        low = {}
        need = False
        for m, c in p.t.items():
            for a, e in m:
                k = ATOMS[a].kind
                if k == "T":
                    n, r = split_int(e)
                    if n:
                        need = True
                    low[a] = min(low.get(a, 0), n)
                elif k == "prime":
                    n, r = split_int(e)
                    if n:
                        need = True
        if not need:
            return p
        if mult is not None:
            for a, n in low.items():
                mult[a] = mult.get(a, 0) + n
        acc = {}
        extra = ZERO
        cache = {}
        for m, c in p.t.items():
            f = None
            mono = []
            seen = set()
            for a, e in m:
                k = ATOMS[a].kind
                if k == "prime":
                    n, r = split_int(e)
                    c = cnorm(Fraction(c) * Fraction(ATOMS[a].data) ** n)
                    if isinstance(r, Val) or r != 0:
                        mono.append((a, r))
                elif k == "T":
                    seen.add(a)
                    n, r = split_int(e)
                    n -= low[a]
                    if isinstance(r, Val) or r != 0:
                        mono.append((a, r))
                    if n:
                        if (a, n) not in cache:
                            cache[(a, n)] = ATOMS[a].data ** n
                        f = cache[(a, n)] if f is None else f * cache[(a, n)]
                else:
                    mono.append((a, e))
            for a, n in low.items():
                if a not in seen and n:
                    if (a, -n) not in cache:
                        cache[(a, -n)] = ATOMS[a].data ** (-n)
                    f = cache[(a, -n)] if f is None else f * cache[(a, -n)]
            mono = tuple(mono)
            if f is None:
                d = acc.get(mono, 0) + c
                acc[mono] = d
            else:
                extra = extra + f.mul_mono(mono, c)
        p = Poly({m: cnorm(c) for m, c in acc.items() if c != 0}) + extra
    return p

_NOSQ = set()
def factors(v):
    """v -> (sign, [(atom id, exponent)], coef>0) with |v| = coef*prod atom^exponent; forks on signs.
    Raises Undefined when v can be zero only if it IS zero."""
    eng = E()
    v = eng.norm(v)
    if v.is_zero():
        return 0, [], 0
    if not v.den and v.const() is None and S.all_const(v) and any(a in (W_ID, I_ID) for a in v.atoms()):
        r = S.const_sign(v)
        if r:
            return r, [(t_atom(v.num if r > 0 else -v.num).id, 1)], 1
    sign = 1
    out = {}
    def add(a, e):
        g = eadd(out.get(a, 0), e)
        out[a] = g
    c, m, prim = split_content(v.num)
    if c < 0:
        sign = -sign
    coef = abs(c)
    todo = [(prim, 1)] + [(f, -k) for f, k in v.den]
    for a, e in m:
        k = ATOMS[a].kind
        if a in (I_ID,):
            raise Undefined("complex")
        if a == W_ID:
            todo.append((Poly({((a, 1),): 1}), e))
            continue
        if S._atom_pos(a):
            add(a, e)
            continue
        todo.append((Poly({((a, 1),): 1}), e))
    for f, k in todo:
        if f.const() is not None:
            continue
        fv = eng.norm(Val(f))
        if fv.num is not f or fv.den:
            if fv.is_zero():
                return 0, [], 0
            s2, l2, c2 = factors(fv)
            if type(k) is not int:
                raise S.Inconclusive("factor exponent")
            if k % 2 and s2 < 0:
                sign = -sign
            coef = coef * Fraction(c2) ** k
            for a, e in l2:
                add(a, emul(e, k))
            continue
        if len(f.t) >= 3 and f not in _NOSQ:
            g = poly_sqrt(f)
            if g is None:
                _NOSQ.add(f)
            else:
                todo.append((g, emul(k, 2)))
                continue
        if not has_syms(fv):
            if eng.decide(fv, ZER):
                return 0, [], 0
            if eng.norm(fv) != fv:
                return factors(v)
        else:
            eng.assume(fv, NZ)
        pos = None
        if W_ID in f.atoms() and not fv.den and S.all_const(fv):
            ex = [dict(m).get(W_ID, 0) for m in f.t]
            if all(not isinstance(z, Val) for z in ex):
                mid = cnorm(Fraction(min(ex) + max(ex)) / 2)
                r = S.const_sign(Val(f.mul_mono(((W_ID, -mid),)) if mid else f))
                if r: pos = r > 0
        if pos is None:
            pos = eng.decide(fv, POSS)
        if eng.norm(fv) != fv:
            return factors(v)
        base = f if pos else -f
        if isinstance(k, Val):
            raise S.Inconclusive("symbolic exponent of sign-varying factor")
        if not pos:
            if type(k) is not int:
                raise Undefined("fractional power of negative")
            if k % 2:
                sign = -sign
        add(t_atom(base).id, k)
    return sign, [(a, e) for a, e in sorted(out.items(), key=lambda z: z[0]) if isinstance(e, Val) or e != 0], coef

def has_ln(v):
    return any(ATOMS[a].kind == "LN" for a in v.atoms())

def mono_val(fs, coef=1):
    """product of atom^exponent"""
    m = []
    for a, e in fs:
        if isinstance(e, Val) or e != 0:
            m.append((a, e))
    return Val(Poly({tuple(sorted(m)): cnorm(coef)}))

def vlog(v):
    """natural log; Undefined when v <= 0"""
    s, fs, c = factors(v)
    if s <= 0:
        raise Undefined("log of non-positive")
    acc = VZERO
    c = Fraction(c)
    for p, k in factorint(c.numerator).items():
        acc = acc + to_val(k) * vatom(ln_atom(prime_atom(p).id))
    for p, k in factorint(c.denominator).items():
        acc = acc - to_val(k) * vatom(ln_atom(prime_atom(p).id))
    for a, e in fs:
        if a == E_ID:
            acc = acc + to_val(e)
        else:
            acc = acc + to_val(e) * vatom(ln_atom(a))
    return acc

def base_pow(a, e):
    """atom a (positive) to exponent e (number or Val)"""
    A = ATOMS[a]
    if A.kind == "prime":
        return num_pow(A.data, e)
    if a == E_ID:
        return expE(to_val(e))
    if isinstance(e, Val) or e != 0:
        return Val(Poly({((a, e),): 1}))
    return VONE

def expE(v):
    """e^v"""
    v = E().norm(v)
    rest = ZERO
    out = VONE
    for m, c in v.num.t.items():
        lns = [(a, e) for a, e in m if ATOMS[a].kind == "LN" and e == 1]
        if lns:
            a = min(x for x, _ in lns)
            rm = tuple((b, e) for b, e in m if b != a)
            ex = vexp(Val.make(Poly({rm: c}), dict(v.den)))
            out = out * base_pow(ATOMS[a].data, ex)
        else:
            rest = rest + Poly({m: c})
    if rest.t:
        ex = vexp(Val.make(rest, dict(v.den)))
        if isinstance(ex, Val) or ex != 0:
            out = out * Val(Poly({((E_ID, ex),): 1}))
    return out

def vpow(b, e):
    """b ** e in real arithmetic"""
    eng = E()
    b, e = eng.norm(b), eng.norm(e)
    ec = e.const()
    if ec is not None:
        ec = cnorm(ec)
        if type(ec) is int:
            if ec == 0:
                return VONE
            if ec < 0 and b.is_zero():
                raise Undefined("0 to a negative power")
            if abs(ec) > 40:
                raise S.Inconclusive("large power")
            if ec < 0 and not has_syms(b) and eng.decide(b, ZER):
                raise Undefined("0 to a negative power")
            b = eng.norm(b)
            return b ** ec
    bc = b.const()
    if bc is not None:
        if bc == 0:
            if eng.decide(e, POSS) if not has_syms(e) else False:
                return VZERO
            raise Undefined("0**x")
        if bc == 1:
            return VONE
        if bc > 0:
            if has_ln(e):
                return expE(e * vlog(b))
            return num_pow(bc, vexp(e))
    if b == VE:
        return expE(e)
    s, fs, c = factors(b)
    e = eng.norm(e)
    if s == 0:
        if not has_syms(e) and eng.decide(e, POSS):
            return VZERO
        raise Undefined("0**x")
    if s < 0:
        sg = None
        if ec is not None:
            if not has_syms(b) and Fraction(ec).denominator % 2 == 1:
                sg = -1 if Fraction(ec).numerator % 2 else 1
        elif not has_syms(e) and eng._struct_int(e):
            sg = -1 if eng.mod(e, 2) else 1
            e = eng.norm(e)
        elif not has_syms(e) and not has_syms(b):
            n, d = eng.num_den(e)
            if eng.mod(d, 2) == 1:
                sg = -1 if eng.mod(n, 2) else 1
            e = eng.norm(e)
        if sg is None:
            raise Undefined("non-integer power of a negative base")
    else:
        sg = 1
    e = eng.norm(e)
    ee = vexp(e)
    if isinstance(ee, Val) and has_ln(ee):
        lg = VZERO
        cc = Fraction(c)
        r = expE(ee * vlog(to_val(cc))) if cc != 1 else VONE
        for a, k in fs:
            la = to_val(k) * (vatom(ln_atom(a)) if a != E_ID else VONE)
            r = r * expE(ee * la)
        return r if sg > 0 else -r
    r = num_pow(c, ee)
    for a, k in fs:
        r = r * base_pow(a, emul(k, ee))
    return r if sg > 0 else -r

P.POW_HOOK[0] = vpow

def _unit(q):
    """e^{i pi q} for rational q with denominator dividing 12; None otherwise"""
    q = Fraction(q) % 2
    if 12 % q.denominator:
        return None
    p = int(q * 12) % 24
    u3 = to_val(HALF) + VI * num_pow(3, HALF) * to_val(HALF)
    u4 = num_pow(2, HALF) * to_val(HALF) * (VONE + VI)
    for a in range(6):
        for b in range(8):
            if (4 * a + 3 * b) % 24 == p:
                r = VONE
                for _ in range(a):
                    r = Val(reduce_poly((r * u3).num))
                for _ in range(b):
                    r = Val(reduce_poly((r * u4).num))
                return r
    return None

_UNITS = {}
def unit(q):
    q = Fraction(q) % 2
    if q not in _UNITS:
        _UNITS[q] = _unit(q)
    return _UNITS[q]

def W(theta):
    """e^{i theta}"""
    eng = E()
    theta = eng.norm(theta)
    out = VONE
    rest = ZERO
    for m, c in theta.num.t.items():
        if not theta.den and m == ((PI_ID, 1),):
            u = unit(c)
            if u is not None:
                out = out * u
                continue
            c = Fraction(c) % 2
            rest = rest + Poly({m: cnorm(c)})
            continue
        if not theta.den and (PI_ID, 1) in m:
            q = Val(Poly({tuple(z for z in m if z != (PI_ID, 1)): c}))
            if eng._struct_int(q):
                if eng.mod(q, 2):
                    out = -out
                continue
        if not theta.den and len(m) == 1 and ATOMS[m[0][0]].kind == "ang" and m[0][1] == 1 and type(c) is int:
            A = ATOMS[m[0][0]]
            sv, cv = ang_sc(A)
            out = out * (cv + VI * sv) ** c if c > 0 else out * (cv - VI * sv) ** (-c)
            continue
        rest = rest + Poly({m: c})
    if rest.t:
        ex = vexp(Val.make(rest, dict(theta.den)))
        if isinstance(ex, Val) or ex != 0:
            out = out * Val(Poly({((W_ID, ex),): 1}))
    return out

def ang_sc(A):
    kind, v = A.data
    if kind == "asin":
        return v, vpow(VONE - v * v, to_val(HALF))
    r = vpow(VONE + v * v, to_val(-HALF))
    return v * r, r

def vsin(t):
    w = W(t)
    wi = W(-t)
    return (w - wi) * VI * to_val(-HALF)

def vcos(t):
    return (W(t) + W(-t)) * to_val(HALF)

def chk(v):
    v2 = reduce_val(v)
    if v2.is_zero():
        raise Undefined("division by zero")
    return v2

def trig(name, t):
    if name == "sin": return vsin(t)
    if name == "cos": return vcos(t)
    if name == "csc": return chk(vsin(t)).inv()
    if name == "sec": return chk(vcos(t)).inv()
    # tan = -i (w^2-1)/(w^2+1)
    s, c = vsin(t), vcos(t)
    if name == "tan": return s / chk(c)
    if name == "cot": return c / chk(s)
    raise S.Inconclusive("trig " + name)

_ASIN = None
def inv_table():
    global _ASIN
    if _ASIN is None:
        h = to_val(HALF)
        r2, r3 = num_pow(2, HALF), num_pow(3, HALF)
        _ASIN = {"asin": [(VZERO, 0), (h, Fraction(1, 6)), (r2 * h, Fraction(1, 4)), (r3 * h, Fraction(1, 3)), (VONE, HALF)],
                 "atan": [(VZERO, 0), (VONE, Fraction(1, 4)), (r3, Fraction(1, 3)), (r3.inv(), Fraction(1, 6))]}
    return _ASIN

def vasin(v, kind="asin"):
    eng = E()
    v = reduce_val(eng.norm(v))
    if v.is_zero():
        return VZERO
    c, m, prim = split_content(v.num)
    if c < 0:
        return -vasin(-v, kind)
    for w, q in inv_table()[kind]:
        if reduce_poly((v - w).num).t == {}:
            return to_val(q) * VPI
    if kind == "asin":
        if not eng.decide(VONE - v * v, POSS):
            if not has_syms(v) and eng.decide(VONE - v * v, ZER):
                return to_val(HALF) * VPI if eng.decide(v, POSS) else to_val(-HALF) * VPI
            raise Undefined("asin outside [-1,1]")
    if any(a in eng.subst for a in v.atoms()):
        return vasin(v, kind)
    return vatom(atom("ang", (kind, v), "%s(%r)" % (kind, v), (kind, v)))

def inv_trig(name, v):
    if name == "sin": return vasin(v)
    if name == "cos": return to_val(HALF) * VPI - vasin(v)
    if name == "tan": return vasin(v, "atan")
    raise S.Inconclusive("inverse " + name)

def vabs(v):
    eng = E()
    v = eng.norm(v)
    if v.is_zero():
        return v
    if any(a in (W_ID, I_ID) for a in v.atoms()) or v.den:
        s, fs, c = factors(v)
        if s == 0:
            return VZERO
        return v if s > 0 else -v
    s, fs, c = factors(v)
    v = eng.norm(v)
    if s == 0:
        return VZERO
    return v if s > 0 else -v

def math_sym(name, vs, args):
    if any(v is None for v in vs):
        raise S.Inconclusive("math on inf")
    try:
        if name in ("sin", "cos", "tan"):
            return S.mkf(trig(name, vs[0]))
        if name in ("asin", "acos", "atan"):
            return S.mkf(inv_trig(name[1:], vs[0]))
        if name == "log":
            if len(vs) == 2:
                return S.mkf(vlog(vs[0]) / chk(vlog(vs[1])))
            return S.mkf(vlog(vs[0]))
        if name == "exp":
            return S.mkf(expE(vs[0]))
        if name == "sqrt":
            return S.mkf(vpow(vs[0], to_val(HALF)))
        if name == "pow":
            return S.float_pow(vs[0], vs[1])
        if name == "fabs":
            return S.mkf(vabs(vs[0]))
        if name == "floor":
            return S.mki(E().floor(vs[0]))
        if name == "isclose":
            return E().decide(vs[0] - vs[1], ZER)
        if name in ("isinf", "isnan"):
            return False
    except Undefined:
        raise ValueError("math domain error")
    raise S.Inconclusive("math." + name)

# ------------------------------------------------------------------ denotation of trees
class Den:
    def __init__(self, opaque=None):
        self.memo = {}
        self.keep = []
        self.opaque = opaque or {}
        self.domain = []      # polys that must be non-zero

    def sym(self, name):
        s = E().scen.get(name, 1)
        v = vatom(sym_atom(name))
        return v if s > 0 else -v

    def num(self, x):
        v = S.val_of(x)
        if v is not None:
            return E().norm(v)
        if type(x) is float:
            v = S.fval(x)
            if v is None:
                raise Undefined("infinite")
            return v
        raise S.Inconclusive("number %r" % type(x))

    def d(self, e):
        k = id(e)
        r = self.memo.get(k)
        if r is None:
            r = self._d(e)
            self.memo[k] = r
            self.keep.append(e)
        return r

    def inv(self, v):
        v = E().norm(v)
        v = chk(v)
        if not has_syms(v) and E().decide(v, ZER):
            raise Undefined("division by zero")
        v = E().norm(v)
        return v.inv()

    def _d(self, e):
        if isinstance(e, Val):
            return E().norm(e)
        if isinstance(e, tuple):
            return self.ref(e)
        v = S.val_of(e)
        if v is not None:
            return E().norm(v)
        if type(e) is float:
            return self.num(e)
        n = type(e).__name__
        if n == "Rat" or n == "Float":
            return self.num(e.value)
        if n == "Symbol":
            return self.sym(e.name)
        if n == "Pi":
            return VPI
        if n == "E":
            return VE
        if n in ("Infinity", "NegInfinity", "NaN"):
            raise Undefined("infinite")
        if n == "Sum":
            acc = VZERO
            for t in e.terms:
                acc = acc + self.d(t)
            return acc
        if n == "Prod":
            acc = VONE
            for t in e.terms:
                acc = acc * self.d(t)
            return acc
        if n == "Power":
            return self.power(self.d(e.base), self.d(e.exponent))
        if n == "log":
            b = self.d(e.base)
            v = vlog(self.d(e.inner))
            if b == VE:
                return v
            return v * self.inv(vlog(b))
        if n == "Abs":
            return vabs(self.d(e.inner))
        if hasattr(e, "is_inverse") and hasattr(e, "func"):
            inner = self.d(e.inner)
            return inv_trig(e.func, inner) if e.is_inverse else trig(e.func, inner)
        if n in self.opaque:
            return self.opaque[n](self, e)
        raise S.Inconclusive("denotation of " + n)

    def power(self, b, x):
        c = x.const()
        if c is not None and c < 0:
            b = chk(b)
            if not has_syms(b) and E().decide(b, ZER):
                raise Undefined("division by zero")
        return vpow(b, x)

    def ref(self, e):
        op = e[0]
        if op == "+":
            acc = VZERO
            for t in e[1:]:
                acc = acc + self.d(t)
            return acc
        if op == "*":
            acc = VONE
            for t in e[1:]:
                acc = acc * self.d(t)
            return acc
        if op == "-":
            return self.d(e[1]) - self.d(e[2])
        if op == "neg":
            return -self.d(e[1])
        if op == "/":
            return self.d(e[1]) * self.inv(self.d(e[2]))
        if op == "^":
            return self.power(self.d(e[1]), self.d(e[2]))
        if op == "log":
            v = vlog(self.d(e[1]))
            if len(e) > 2:
                v = v * self.inv(vlog(self.d(e[2])))
            return v
        if op == "abs":
            return vabs(self.d(e[1]))
        if op == "sym":
            return self.sym(e[1])
        if op in ("sin", "cos", "tan", "sec", "csc", "cot"):
            return trig(op, self.d(e[1]))
        if op in ("asin", "acos", "atan"):
            return inv_trig(op[1:], self.d(e[1]))
        if op == "pi":
            return VPI
        if op == "e":
            return VE
        if op == "D":
            return self.diff(self.d(e[1]), e[2])
        if op == "subst":      # ('subst', expr, {name: expr}) : value of expr in the updated environment
            inner = Den(self.opaque)
            env = {k: self.d(v) for k, v in e[2].items()}
            outer = self
            def sym(name):
                return env[name] if name in env else outer.sym(name)
            inner.sym = sym
            r = inner.d(e[1])
            self.keep.append(inner)
            return r
        raise S.Inconclusive("reference " + str(op))

    # ---- derivative with respect to the symbol `name`
    def diff(self, v, name):
        s = E().scen.get(name, 1)
        r = dval(v, sym_atom(name).id, {})
        return r if s > 0 else -r

def dval(v, x, memo):
    if v in memo:
        return memo[v]
    n = dpoly(v.num, x, memo)
    if v.den:
        inv = Val(ONE, v.den)
        r = n * inv
        for f, k in v.den:
            df = dpoly(f, x, memo)
            if not df.is_zero():
                r = r - Val.make(v.num.scale(k), dict(v.den)) * df * Val(ONE, ((f, 1),))
    else:
        r = n
    memo[v] = r
    return r

def datom(a, x, memo):
    """derivative of atom a -> Val"""
    if a == x:
        return VONE
    A = ATOMS[a]
    k = A.kind
    if k == "T":
        return dpoly(A.data, x, memo)
    if k == "LN":
        if A.data is None:
            return VZERO
        d = datom(A.data, x, memo)
        if d.is_zero():
            return VZERO
        return d * Val(Poly({((A.data, -1),): 1}))
    if k == "ang":
        kind, v = A.data
        d = dval(v, x, memo)
        if d.is_zero():
            return VZERO
        if kind == "asin":
            return d * vpow(VONE - v * v, to_val(-HALF))
        return d / (VONE + v * v)
    if k == "opq":
        return A.data["diff"](x, memo)
    return VZERO

def dpoly(p, x, memo):
    key = ("p", p)
    if key in memo:
        return memo[key]
    acc = VZERO
    for m, c in p.t.items():
        for i, (a, e) in enumerate(m):
            if a == I_ID:
                continue
            rest = m
            if isinstance(e, Val):
                de = dval(e, x, memo)
                if not de.is_zero():
                    if a == W_ID:
                        l = VI
                    elif a == E_ID:
                        l = VONE
                    else:
                        l = vatom(ln_atom(a))
                    acc = acc + Val(Poly({m: c})) * de * l
            if a == W_ID or a == E_ID:
                continue
            da = datom(a, x, memo)
            if not da.is_zero():
                m2 = list(m)
                e1 = eadd(e, -1)
                if isinstance(e1, Val) or e1 != 0:
                    m2[i] = (a, e1)
                else:
                    del m2[i]
                acc = acc + Val(Poly({tuple(m2): c})) * to_val(e) * da
    memo[key] = acc
    return acc
