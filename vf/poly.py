"""Exact algebra used by the oracle and by the symbolic numbers.

Poly : finite sum of rational coefficients times generalised monomials. A monomial is a tuple of
       (atom id, exponent), exponents being ints, Fractions, or (non-constant) Val.
Val  : Poly / product of Poly factors.
Nothing in here imports simpy.
"""
from fractions import Fraction as _F
import math

class Undefined(Exception):
    """the real-valued expression is not defined here"""

class Atom:
    __slots__ = ("id", "kind", "name", "data")
    def __init__(self, id, kind, name, data):
        self.id, self.kind, self.name, self.data = id, kind, name, data
    def __repr__(self):
        return self.name

ATOMS = []
_REG = {}

def atom(kind, key, name=None, data=None):
    k = (kind, key)
    a = _REG.get(k)
    if a is None:
        a = Atom(len(ATOMS), kind, name or "%s%d" % (kind, len(ATOMS)), data)
        ATOMS.append(a)
        _REG[k] = a
    return a

I_ID = atom("I", "I", "I").id      # imaginary unit (id 0)
W_ID = atom("W", "W", "W").id      # e^{i}
PI_ID = atom("const", "pi", "pi").id
E_ID = atom("const", "e", "e").id

def cnorm(c):
    if type(c) is int:
        return c
    if c.denominator == 1:
        return int(c.numerator)
    return c

def cinv(c):
    return cnorm(_F(1, c) if type(c) is int else 1 / c)

def cdiv(a, b):
    return cnorm(_F(a) / b)

def eadd(a, b):
    if type(a) is int and type(b) is int:
        return a + b
    if isinstance(a, Val) or isinstance(b, Val):
        return vexp(to_val(a) + to_val(b))
    return cnorm(a + b)

def emul(a, b):
    if isinstance(a, Val) or isinstance(b, Val):
        return vexp(to_val(a) * to_val(b))
    return cnorm(a * b)

def vexp(v):
    """exponent normal form: plain number if constant"""
    c = v.const()
    return v if c is None else c

def mono_mul(m, n):
    """-> (sign, mono)"""
    if not m:
        return 1, n
    if not n:
        return 1, m
    out = []
    i = j = 0
    sign = 1
    lm, ln = len(m), len(n)
    while i < lm and j < ln:
        a, e = m[i]
        b, f = n[j]
        if a == b:
            if a == 0:
                sign = -sign
            else:
                g = e + f if (type(e) is int and type(f) is int) else eadd(e, f)
                if isinstance(g, Val) or g != 0:
                    out.append((a, g))
            i += 1
            j += 1
        elif a < b:
            out.append(m[i])
            i += 1
        else:
            out.append(n[j])
            j += 1
    out.extend(m[i:])
    out.extend(n[j:])
    return sign, tuple(out)

def mono_pow(m, k):
    """m**k for numeric or Val k (I only with int k) -> (sign, mono)"""
    out = []
    sign = 1
    for a, e in m:
        if a == 0:
            k4 = k % 4
            if k4 in (2, 3):
                sign = -1
            if k4 in (1, 3):
                out.append((0, 1))
            continue
        g = emul(e, k)
        if isinstance(g, Val) or g != 0:
            out.append((a, g))
    return sign, tuple(out)

_mkey = {}
def mono_key(m):
    k = _mkey.get(m)
    if k is None:
        k = tuple((a, str(e)) for a, e in m)
        k = (-len(m), k)
        _mkey[m] = k
    return k

class Poly:
    __slots__ = ("t", "_h", "_key", "_r")
    def __init__(self, t):
        self.t = t
        self._h = None
        self._key = None
        self._r = None
    def __bool__(self):
        return bool(self.t)
    def key(self):
        if self._key is None:
            self._key = frozenset(self.t.items())
        return self._key
    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h
    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t
    def __add__(self, o):
        if len(o.t) > len(self.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            d = t.get(m)
            if d is None:
                t[m] = c
            else:
                d = cnorm(d + c)
                if d == 0:
                    del t[m]
                else:
                    t[m] = d
        return Poly(t)
    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o):
        return self + (-o)
    def scale(self, k):
        if k == 1:
            return self
        if k == 0:
            return ZERO
        return Poly({m: cnorm(c * k) for m, c in self.t.items()})
    def __mul__(self, o):
        if self is ONE or o is ONE:
            return o if self is ONE else self
        t = {}
        if len(self.t) * len(o.t) > 400000:
            raise TooBig("poly product %d x %d" % (len(self.t), len(o.t)))
        for m, c in self.t.items():
            for n, d in o.t.items():
                s, p = mono_mul(m, n)
                v = c * d
                if s < 0:
                    v = -v
                w = t.get(p)
                if w is not None:
                    v = w + v
                t[p] = v
        return Poly({m: cnorm(c) for m, c in t.items() if c != 0})
    def mul_mono(self, mono, k=1):
        if not mono:
            return self.scale(k)
        t = {}
        for m, c in self.t.items():
            s, p = mono_mul(m, mono)
            v = cnorm(c * k * s)
            if p in t:
                v = cnorm(v + t[p])
            t[p] = v
        return Poly({m: c for m, c in t.items() if c != 0})
    def __pow__(self, n):
        r, b = ONE, self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r
    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None
    def atoms(self, acc=None, deep=True):
        if acc is None:
            acc = set()
        for m in self.t:
            for a, e in m:
                acc.add(a)
                if isinstance(e, Val):
                    e.atoms(acc, deep)
        return acc
    def __repr__(self):
        if self._r is None:
            self._r = self._repr()
        return self._r
    def _repr(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda z: mono_key(z[0])):
            s = "*".join(ATOMS[a].name + ("" if e == 1 else "^(%s)" % (e,)) for a, e in m)
            out.append("%s%s" % (c, "*" + s if s else "") if c != 1 or not s else s)
        return " + ".join(out)

class TooBig(Exception):
    pass

ZERO = Poly({})
ONE = Poly({(): 1})

def pconst(c):
    c = cnorm(c)
    return Poly({(): c}) if c != 0 else ZERO

def split_content(p):
    """p -> (coef, mono, prim) with p = coef*mono*prim, prim having leading coefficient 1 and no monomial content"""
    t = p.t
    if len(t) == 1:
        (m, c), = t.items()
        return c, m, ONE
    it = iter(t)
    first = next(it)
    cur = {a: e for a, e in first if a != 0}
    for m in it:
        d = dict(m)
        new = {}
        for a, e in cur.items():
            f = d.pop(a, 0)
            new[a] = _emin(e, f)
        for a, f in d.items():
            if a != 0 and not isinstance(f, Val) and f < 0 and a not in cur:
                new[a] = f
            elif a != 0 and a not in cur:
                new[a] = 0
        cur = new
    mono = tuple(sorted((a, e) for a, e in cur.items() if isinstance(e, Val) or e != 0)) if any(
        isinstance(e, Val) or e != 0 for e in cur.values()) else ()
    if mono:
        _, inv = mono_pow(mono, -1)
        p = p.mul_mono(inv)
    lead = max(p.t, key=mono_key)
    c = p.t[lead]
    return c, mono, p.scale(cinv(c))

def _emin(e, f):
    if not isinstance(e, Val) and not isinstance(f, Val):
        return e if e <= f else f
    d = vexp(to_val(e) - to_val(f))
    if isinstance(d, Val):
        return 0
    return e if d <= 0 else f

def divexact(p, f):
    """p / f if exact, else None. Monomials with integer exponents only."""
    if len(f.t) == 1:
        (m, c), = f.t.items()
        if any(a == 0 for a, _ in m):
            return None
        return p.mul_mono(mono_pow(m, -1)[1], cinv(c))
    if len(p.t) * len(f.t) > 20000:
        return None
    for q in (p, f):
        for m in q.t:
            for a, e in m:
                if a == 0 or type(e) is not int:
                    return None
    ids = sorted(p.atoms() | f.atoms())
    pos = {a: i for i, a in enumerate(ids)}
    n = len(ids)
    def conv(q):
        out = {}
        for m, c in q.t.items():
            v = [0] * n
            for a, e in m:
                v[pos[a]] = e
            out[tuple(v)] = c
        return out
    P, Q = conv(p), conv(f)
    sh = [min(v[i] for v in P) for i in range(n)]
    sq = [min(v[i] for v in Q) for i in range(n)]
    P = {tuple(v[i] - sh[i] for i in range(n)): c for v, c in P.items()}
    Q = {tuple(v[i] - sq[i] for i in range(n)): c for v, c in Q.items()}
    lq = max(Q)
    # quick degree test
    for i in range(n):
        if max(v[i] for v in Q) > max(v[i] for v in P):
            return None
    cq = Q[lq]
    R = {}
    steps = 0
    while P:
        lp = max(P)
        d = tuple(a - b for a, b in zip(lp, lq))
        if any(z < 0 for z in d):
            return None
        c = cdiv(P[lp], cq)
        R[d] = c
        for v, e in Q.items():
            k = tuple(a + b for a, b in zip(v, d))
            z = P.get(k, 0) - c * e
            if z == 0:
                P.pop(k, None)
            else:
                P[k] = cnorm(z)
        steps += 1
        if steps > 2000:
            return None
    out = {}
    for v, c in R.items():
        out[tuple((ids[i], v[i] + sh[i] - sq[i]) for i in range(n) if v[i] + sh[i] - sq[i])] = c
    return Poly(out)

def poly_sqrt(p):
    """g with g*g == p, or None (integer exponents, rational coefficients)"""
    n = len(p.t)
    if n < 3 or n > 60:
        return None
    for m in p.t:
        for a, e in m:
            if a == 0 or type(e) is not int:
                return None
    ids = sorted(p.atoms())
    pos = {a: i for i, a in enumerate(ids)}
    P = {}
    for m, c in p.t.items():
        v = [0] * len(ids)
        for a, e in m:
            v[pos[a]] = e
        P[tuple(v)] = _F(c)
    lp, sp = max(P), min(P)
    if any(x % 2 for x in lp) or any(x % 2 for x in sp):
        return None
    def rt(c):
        if c <= 0: return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        return _F(a, b) if a * a == c.numerator and b * b == c.denominator else None
    c = rt(P[lp])
    if c is None or rt(P[sp]) is None:
        return None
    lq = tuple(x // 2 for x in lp)
    Q = {lq: c}
    R = dict(P)
    R.pop(lp)
    while R:
        lr = max(R)
        d = tuple(a - b for a, b in zip(lr, lq))
        if d >= min(Q) or len(Q) > n:
            return None
        k = R[lr] / (2 * c)
        for v, e in list(Q.items()):
            w = tuple(a + b for a, b in zip(v, d))
            z = R.get(w, 0) - 2 * k * e
            if z: R[w] = z
            else: R.pop(w, None)
        w = tuple(2 * a for a in d)
        z = R.get(w, 0) - k * k
        if z: R[w] = z
        else: R.pop(w, None)
        Q[d] = k
    return Poly({tuple((ids[i], v[i]) for i in range(len(ids)) if v[i]): cnorm(x) for v, x in Q.items()})

class Val:
    __slots__ = ("num", "den", "_h")
    def __init__(self, num, den=()):
        self.num = num
        self.den = den      # tuple of (Poly, int) sorted by hash-independent key
        self._h = None
    @staticmethod
    def make(num, den):
        """den: dict Poly->int. Cancels exact factors."""
        if not num.t:
            return VZERO
        out = []
        for f, k in den.items():
            while k > 0:
                q = divexact(num, f) if len(num.t) >= len(f.t) or len(num.t) > 1 else None
                if q is None:
                    break
                num = q
                k -= 1
            if k:
                out.append((f, k))
        if len(out) > 1:
            out.sort(key=lambda z: repr(z[0]))
        return Val(num, tuple(out))
    def __hash__(self):
        if self._h is None:
            self._h = hash((self.num, frozenset(self.den)))
        return self._h
    def __eq__(self, o):
        return isinstance(o, Val) and self.num == o.num and self.den == o.den
    def __add__(self, o):
        if self.den == o.den:
            if not self.den:
                return Val(self.num + o.num)
            return Val.make(self.num + o.num, dict(self.den))
        a, b = dict(self.den), dict(o.den)
        na, nb = self.num, o.num
        lcm = dict(a)
        for f, k in b.items():
            if lcm.get(f, 0) < k:
                lcm[f] = k
        for f, k in lcm.items():
            if k > a.get(f, 0):
                na = na * f ** (k - a.get(f, 0))
            if k > b.get(f, 0):
                nb = nb * f ** (k - b.get(f, 0))
        return Val.make(na + nb, lcm)
    def __neg__(self):
        return Val(-self.num, self.den)
    def __sub__(self, o):
        return self + (-o)
    def __mul__(self, o):
        if not self.den and not o.den:
            return Val(self.num * o.num)
        den = dict(self.den)
        for f, k in o.den:
            den[f] = den.get(f, 0) + k
        n1, n2 = self.num, o.num
        # cancel across first (keeps products small)
        for f in list(den):
            for which in (1, 2):
                n = n1 if which == 1 else n2
                while den.get(f, 0) > 0 and len(n.t) > 1:
                    q = divexact(n, f)
                    if q is None:
                        break
                    n = q
                    den[f] -= 1
                if which == 1:
                    n1 = n
                else:
                    n2 = n
            if den[f] == 0:
                del den[f]
        num = n1 * n2
        if not num.t:
            return VZERO
        out = sorted(den.items(), key=lambda z: repr(z[0])) if len(den) > 1 else list(den.items())
        return Val(num, tuple(out))
    def inv(self):
        if not self.num.t:
            raise ZeroDivisionError("inverse of zero")
        c, m, prim = split_content(self.num)
        s, mi = mono_pow(m, -1)
        num = Poly({mi: cnorm(cinv(c) * s)})
        for f, k in self.den:
            num = num * f ** k
        if prim is ONE or prim.const() == 1:
            return Val(num)
        return Val.make(num, {prim: 1})
    def __truediv__(self, o):
        return self * o.inv()
    def __pow__(self, n):
        if n < 0:
            return self.inv() ** (-n)
        if n == 0:
            return VONE
        return Val(self.num ** n, tuple((f, k * n) for f, k in self.den))
    def const(self):
        if self.den:
            return None
        return self.num.const()
    def is_zero(self):
        return not self.num.t
    def atoms(self, acc=None, deep=True):
        if acc is None:
            acc = set()
        self.num.atoms(acc, deep)
        for f, _ in self.den:
            f.atoms(acc, deep)
        return acc
    def den_poly(self):
        p = ONE
        for f, k in self.den:
            p = p * f ** k
        return p
    def __repr__(self):
        if not self.den:
            return repr(self.num)
        return "(%r)/(%s)" % (self.num, "*".join("(%r)^%d" % fk for fk in self.den))

VZERO = Val(ZERO)
VONE = Val(ONE)

def to_val(c):
    if isinstance(c, Val):
        return c
    return Val(pconst(c))

def vatom(i, e=1):
    if isinstance(i, Atom):
        i = i.id
    return Val(Poly({((i, e),): 1}))

VI = vatom(I_ID)
VPI = vatom(PI_ID)
VE = vatom(E_ID)

_PR = {}
def factorint(n):
    if n in _PR:
        return _PR[n]
    m, out, p = n, {}, 2
    while p * p <= m and p < 100000:
        while m % p == 0:
            out[p] = out.get(p, 0) + 1
            m //= p
        p += 1 if p == 2 else 2
    if m > 1:
        out[m] = out.get(m, 0) + 1
    _PR[n] = out
    return out

def prime_atom(p):
    return atom("prime", p, "p%d" % p, p)

def num_pow(c, e):
    """positive rational c to exponent e (number or Val) -> Val"""
    if type(e) is int:
        return to_val(_F(c) ** e)
    f = {}
    c = _F(c)
    for p, k in factorint(c.numerator).items():
        f[p] = k
    for p, k in factorint(c.denominator).items():
        f[p] = f.get(p, 0) - k
    mono = []
    coef = _F(1)
    for p, k in f.items():
        g = emul(e, k)
        fl, g = split_int(g)
        coef *= _F(p) ** fl
        if isinstance(g, Val) or g != 0:
            mono.append((prime_atom(p).id, g))
    return Val(Poly({tuple(sorted(mono)): cnorm(coef)}))

def split_int(g):
    """exponent -> (integer part of its constant term, rest)"""
    if isinstance(g, Val):
        if g.den:
            return 0, g
        c = g.num.t.get((), 0)
        fl = math.floor(c)
        return fl, (g - to_val(fl) if fl else g)
    fl = math.floor(g)
    return fl, cnorm(g - fl)

def subst_poly(p, sub):
    """substitute atoms (dict id->Val) in a Poly of plain atoms (recursively in exponents) -> Val"""
    hit = False
    for m in p.t:
        for a, e in m:
            if a in sub or isinstance(e, Val):
                hit = True
                break
        if hit:
            break
    if not hit:
        return Val(p)
    plain = {}
    acc = VZERO
    for m, c in p.t.items():
        v = None
        rest = []
        for a, e in m:
            if isinstance(e, Val):
                e2 = vexp(subst_val(e, sub))
            else:
                e2 = e
            if a in sub:
                b = sub[a]
                if type(e2) is int:
                    w = b ** e2
                else:
                    w = POW_HOOK[0](b, to_val(e2))
                v = w if v is None else v * w
            elif e2 is not e and ATOMS[a].kind == "prime":
                w = num_pow(ATOMS[a].data, e2)
                v = w if v is None else v * w
            elif isinstance(e2, Val) or e2 != 0:
                rest.append((a, e2))
        base = Val(Poly({tuple(rest): c}))
        acc = acc + (base if v is None else base * v)
    return acc

POW_HOOK = [None]

def subst_val(v, sub):
    n = subst_poly(v.num, sub)
    if not v.den:
        return n
    for f, k in v.den:
        g = subst_poly(f, sub)
        if g.num is f and not g.den:
            n = n * Val(ONE, ((f, k),))
        else:
            n = n / g ** k
    return n
