"""SMT-LIB over a pipe to z3 (z3-new), and the translation of generalised polynomials to SMT terms."""
import subprocess, os, time, select
from fractions import Fraction as _F
from math import gcd
from .poly import *
from . import poly as P

Z3 = "/usr/local/bin/z3-new" if os.path.exists("/usr/local/bin/z3-new") else "z3"
CVC5 = "cvc5"

class Solver:
    def __init__(self, cmd=None):
        self.cmd = cmd or [Z3, "-in", "-smt2"]
        self.p = None
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.log = {}
    def start(self):
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        self.buf = b""
    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None
    def _read(self, deadline):
        fd = self.p.stdout.fileno()
        while b"@done@" not in self.buf:
            left = deadline - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                return None
            d = os.read(fd, 65536)
            if not d:
                return None
            self.buf += d
        i = self.buf.index(b"@done@")
        out = self.buf[:i].decode()
        self.buf = self.buf[i + 6:].lstrip(b'"\n')
        return out.strip().rstrip('"').strip()
    def query(self, text, timeout=3.0, want_model=False, kind="path"):
        """-> ('sat'|'unsat'|'unknown', output)"""
        if self.p is None or self.p.poll() is not None:
            self.start()
        t0 = time.time()
        self.queries += 1
        self.log[kind] = self.log.get(kind, 0) + 1
        full = "(reset)\n(set-option :timeout %d)\n%s\n" % (int(timeout * 1000), text)
        if want_model:
            full = full.replace("(reset)\n", "(reset)\n(set-option :pp.decimal false)\n")
        full += '(echo "@done@")\n'
        try:
            data = full.encode()
            self.p.stdin.write(data)
            out = self._read(time.time() + timeout * 2 + 3)
        except (BrokenPipeError, OSError):
            out = None
        self.time += time.time() - t0
        if out is None:
            self.close()
            self.unknown += 1
            return "unknown", ""
        lines = out.splitlines()
        for l in lines:
            if l.startswith("(error") and "model is not available" not in l:
                if not any(w in l for w in ("unknown constant", "pars", "sort", "unexpected", "invalid", "arity", "expect")):
                    self.unknown += 1      # the solver gave up inside (e.g. an arithmetic overflow of its own)
                    return "unknown", ""
                raise SolverError(l + "\n" + text[:2000])
        r = lines[0].strip() if lines else "unknown"
        if r not in ("sat", "unsat"):
            r = "unknown"
            self.unknown += 1
        return r, "\n".join(lines[1:])

class SolverError(Exception):
    pass

def rat(c):
    c = _F(c)
    if c.denominator == 1:
        return str(c.numerator) if c >= 0 else "(- %d)" % -c.numerator
    s = "(/ %d %d)" % (abs(c.numerator), c.denominator)
    return s if c >= 0 else "(- %s)" % s

def ratr(c):
    c = _F(c)
    a = "%d.0" % abs(c.numerator) if c.denominator == 1 else "(/ %d.0 %d.0)" % (abs(c.numerator), c.denominator)
    return a if c >= 0 else "(- %s)" % a

# ---------------------------------------------------------------- real polynomials over solver variables
# A "cpoly" is (re, im): dicts mapping sorted tuple of (varname, posint) -> rational

def _dmul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = dict(m)
            for v, e in n:
                k[v] = k.get(v, 0) + e
            k = tuple(sorted((v, e) for v, e in k.items() if e))
            out[k] = out.get(k, 0) + c * d
    if len(out) > 20000:
        raise TooBig("emission")
    return {m: cnorm(c) for m, c in out.items() if c != 0}

def _dadd(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        z = out.get(m, 0) + c * k
        if z == 0:
            out.pop(m, None)
        else:
            out[m] = cnorm(z)
    return out

class Emit:
    """Collects polynomials, then prints them as SMT terms with all side constraints."""
    PI_LO, PI_HI = _F(314159265358979323846, 10**20), _F(314159265358979323847, 10**20)
    E_LO, E_HI = _F(271828182845904523536, 10**20), _F(271828182845904523537, 10**20)
    def __init__(self):
        self.units = {}       # (base id, key) -> lcm of denominators
        self.keyval = {}      # (base id, key) -> (mono, den) description
        self.seen = set()
        self.vars = {}        # varname -> kind
        self.cons = []
        self.done = set()
        self.int_ok = True
        self.decls = {}
        self.trig = {}
        self.polys_seen = set()
    # -- pass 1
    def _parts(self, e):
        """exponent -> list of (key, rational)"""
        if not isinstance(e, Val):
            return [((), e)]
        out = []
        for m, c in e.num.t.items():
            out.append(((m, e.den), c))
        return [(() if (k == ((), ()) or k == ()) else k, c) for k, c in out]
    def scan(self, p):
        if p in self.polys_seen:
            return
        self.polys_seen.add(p)
        for m in p.t:
            for a, e in m:
                if a == I_ID:
                    continue
                for k, c in self._parts(e):
                    d = _F(c).denominator
                    u = self.units.get((a, k), 1)
                    self.units[(a, k)] = u * d // gcd(u, d)
                self.touch(a)
    def touch(self, a):
        if a in self.seen:
            return
        self.seen.add(a)
        A = ATOMS[a]
        if A.kind == "T":
            self.scan(A.data)
            self.units.setdefault((a, ()), 1)
    # -- pass 2
    def var(self, a, k):
        """name of the variable for base a, key k (value a^(k/unit)), declared on first use"""
        name = "v%d" % a if k == () and self.units.get((a, k), 1) == 1 else "v%d_%d" % (a, self._kidx(k))
        if name not in self.decls:
            A = ATOMS[a]
            u = self.units.get((a, k), 1)
            self.decls[name] = "Int" if A.kind == "pint" else "Real"
            if A.kind in ("sym", "T", "prime") or (A.kind == "const" and k != ()) or k != ():
                if not (A.kind in ("preal", "pint") and k == ()):
                    self.cons.append("(> %s 0)" % name)
            if A.kind == "const" and k == ():
                lo, hi = (self.PI_LO, self.PI_HI) if a == PI_ID else (self.E_LO, self.E_HI)
                t = name if u == 1 else "(* %s)" % " ".join([name] * u)
                if u != 1:
                    self.cons.append("(> %s 0)" % name)
                self.cons.append("(and (< %s %s) (< %s %s))" % (ratr(lo), t, t, ratr(hi)))
            if A.kind == "prime" and k == ():
                self.cons.append("(= %s %d)" % (self._pw(name, u), A.data))
            if A.kind == "T" and k == ():
                self._pending.append((name, u, A.data))
            if A.kind == "LN" and k == () and A.data is not None and ATOMS[A.data].kind == "prime":
                import decimal
                decimal.getcontext().prec = 40
                l = decimal.Decimal(ATOMS[A.data].data).ln()
                lo = _F(int(l * 10**30), 10**30)
                hi = lo + _F(1, 10**30)
                self.cons.append("(and (< %s %s) (< %s %s))" % (ratr(lo), name, name, ratr(hi)))
            if A.kind == "LN" and A.data is not None and ATOMS[A.data].kind == "const":
                import decimal
                lo, hi = _F(114472988584940017414, 10**20), _F(114472988584940017415, 10**20)
                self.cons.append("(and (< %s %s) (< %s %s))" % (ratr(lo), name, name, ratr(hi)))
            if A.kind == "ang" and k == ():
                self.cons.append("(and (< (- 3.15) %s) (< %s 3.15))" % (name, name))
        return name
    def _pw(self, n, u):
        return n if u == 1 else "(* %s)" % " ".join([n] * u)
    def _kidx(self, k):
        i = self._kid.get(k)
        if i is None:
            i = self._kid[k] = len(self._kid)
        return i
    def trigvar(self, k):
        """c,s variable names for W^(k/unit)"""
        if k not in self.trig:
            i = self._kidx(k)
            c, s = "c_%d" % i, "s_%d" % i
            self.decls[c] = self.decls[s] = "Real"
            self.cons.append("(= (+ (* %s %s) (* %s %s)) 1)" % (c, c, s, s))
            u = self.units.get((W_ID, k), 1)
            m = None
            if k == ():
                ang = 1.0 / u
            elif k == ((((PI_ID, 1),), ())):
                import math
                ang = math.pi / u
            else:
                ang = None
            if ang is not None:
                import math
                for nm, x in ((c, math.cos(ang)), (s, math.sin(ang))):
                    lo, hi = _F(x) - _F(1, 10**12), _F(x) + _F(1, 10**12)
                    self.cons.append("(and (<= %s %s) (<= %s %s))" % (ratr(lo), nm, nm, ratr(hi)))
                if k != () and u in (1, 2, 3, 4, 6):
                    ex = {1: ("c", "(- 1)"), 2: ("c", "0"), 3: ("2c", "1"), 4: ("c=s", None), 6: ("2s", "1")}[u]
                    if ex[0] == "c":
                        self.cons.append("(= %s %s)" % (c, ex[1]))
                    elif ex[0] == "2c":
                        self.cons.append("(= (* 2 %s) 1)" % c)
                    elif ex[0] == "2s":
                        self.cons.append("(= (* 2 %s) 1)" % s)
                    else:
                        self.cons.append("(= %s %s)" % (c, s))
            self.trig[k] = (c, s)
        return self.trig[k]
    def expand(self, p, signed):
        """Poly -> cpoly; multiplied by a positive (or, if not signed, non-zero) monomial to clear negative powers"""
        # collect negative powers
        neg = {}
        items = []
        for m, c in p.t.items():
            re = {}
            w = []
            imag = False
            for a, e in m:
                if a == I_ID:
                    imag = True
                    continue
                for k, q in self._parts(e):
                    n = cnorm(_F(q) * self.units.get((a, k), 1))
                    assert type(n) is int, (p, a, k)
                    if a == W_ID:
                        w.append((k, n))
                        self.trigvar(k)
                    else:
                        v = self.var(a, k)
                        re[v] = re.get(v, 0) + n
            items.append((re, w, imag, c))
            for v, n in re.items():
                if n < 0:
                    neg[v] = min(neg.get(v, 0), n)
        if signed:
            for v in neg:
                if neg[v] % 2:
                    neg[v] -= 1
        tot_re, tot_im = {}, {}
        for re, w, imag, c in items:
            mono = dict(re)
            for v, n in neg.items():
                mono[v] = mono.get(v, 0) - n
            base = {tuple(sorted((v, n) for v, n in mono.items() if n)): c}
            R, Im = base, {}
            if imag:
                R, Im = {}, base
            for k, n in w:
                cr, ci = self.wpow(k, n)
                R, Im = _dadd(_dmul(R, cr), _dmul(Im, ci), -1), _dadd(_dmul(R, ci), _dmul(Im, cr))
            tot_re = _dadd(tot_re, R)
            tot_im = _dadd(tot_im, Im)
        return self.rs(tot_re), self.rs(tot_im)
    def rs(self, d):
        """reduce s^2 -> 1-c^2"""
        if not self.trig:
            return d
        ss = {s: c for c, s in self.trig.values()}
        changed = True
        while changed:
            changed = False
            out = {}
            for m, c in d.items():
                hit = None
                for v, e in m:
                    if v in ss and e >= 2:
                        hit = v
                        break
                if hit is None:
                    out = _dadd(out, {m: c})
                    continue
                changed = True
                mm = dict(m)
                mm[hit] -= 2
                base = {tuple(sorted((v, e) for v, e in mm.items() if e)): c}
                out = _dadd(out, base)
                out = _dadd(out, _dmul(base, {((ss[hit], 2),): 1}), -1)
            d = out
        return d
    def wpow(self, k, n):
        key = (k, n)
        if key in self._wp:
            return self._wp[key]
        c, s = self.trigvar(k)
        if abs(n) > 24:
            raise TooBig("trig power")
        R, Im = {(): 1}, {}
        cr, ci = {((c, 1),): 1}, {((s, 1),): 1 if n > 0 else -1}
        for _ in range(abs(n)):
            R, Im = _dadd(_dmul(R, cr), _dmul(Im, ci), -1), _dadd(_dmul(R, ci), _dmul(Im, cr))
            R, Im = self.rs(R), self.rs(Im)
        self._wp[key] = (R, Im)
        return R, Im
    def term(self, d, real):
        if not d:
            return "0"
        out = []
        for m, c in d.items():
            fs = []
            for v, e in m:
                if e > 200: raise TooBig()
                fs += [v] * e
            if not fs:
                out.append(self.num(c, real))
            elif c == 1 and len(fs) == 1:
                out.append(fs[0])
            elif c == 1:
                out.append("(* %s)" % " ".join(fs))
            else:
                out.append("(* %s %s)" % (self.num(c, real), " ".join(fs)))
        return out[0] if len(out) == 1 else "(+ %s)" % " ".join(out)
    def num(self, c, real):
        return ratr(c) if real else rat(c)
    def build(self, facts, goals=(), nonzero_any=None, ints=True):
        """facts: list of (Poly, signset). goals: list of polys of which at least one must be != 0 (may be None).
        -> SMT text (declarations + assertions, no check-sat), is_int flag"""
        self._kid, self._wp, self._pending = {}, {}, []
        allp = [f for f, _ in facts] + list(goals)
        n = -1
        for p in allp:
            self.scan(p)
        ex = []
        for p, S in facts:
            ex.append((self.expand(p, signed=not (S == {0} or S == {1, -1})), S))
        gx = [self.expand(p, False) for p in goals]
        # T definitions (may add more)
        i = 0
        defs = []
        while i < len(self._pending):
            name, u, poly = self._pending[i]
            i += 1
            # v^u * mult = poly * mult : expand jointly as poly - marker
            r, im = self._expand_eq(name, u, poly)
            defs.append(r)
        # all-int query?
        isint = ints and bool(self.decls) and all(k == "Int" for k in self.decls.values())
        if isint:
            deg = 0
            for (r, im), S in ex:
                r = self._clear(r)
                for m in r:
                    deg = max(deg, sum(e for _, e in m))
            isint = deg <= 2
        real = not isint
        out = ["(declare-const %s %s)" % (v, "Real" if real else k) for v, k in self.decls.items()]
        for c in self.cons:
            out.append("(assert %s)" % c)
        for d in defs:
            out.append("(assert (= %s 0))" % self.term(self._clear(d), real))
        for (r, im), S in ex:
            t = self.term(self._clear(r), real)
            if im and S == {0}:
                out.append("(assert (= %s 0))" % self.term(self._clear(im), real))
            out.append("(assert %s)" % sign_rel(t, S))
        gl = []
        for r, im in gx:
            gl.append("(not (= %s 0))" % self.term(self._clear(r), real))
            if im:
                gl.append("(not (= %s 0))" % self.term(self._clear(im), real))
        if goals:
            out.append("(assert (or %s))" % " ".join(gl))
        return "\n".join(out), isint
    def _clear(self, d):
        l = 1
        for c in d.values():
            q = c if type(c) is int else c.denominator
            if type(c) is not int:
                l = l * c.denominator // gcd(l, c.denominator)
        if l == 1:
            return d
        return {m: cnorm(c * l) for m, c in d.items()}
    def _expand_eq(self, name, u, poly):
        # clear negatives: find required multiplier by expanding poly * 1 unsigned while tracking
        neg = {}
        for m in poly.t:
            for a, e in m:
                if a in (I_ID, W_ID):
                    continue
                for k, q in self._parts(e):
                    n = cnorm(_F(q) * self.units.get((a, k), 1))
                    if n < 0:
                        v = self.var(a, k)
                        neg[v] = min(neg.get(v, 0), n)
        r, im = self.expand(poly, False)
        lhs = {tuple(sorted(list({**{v: -n for v, n in neg.items()}}.items()) + [(name, u)])): 1}
        lhs2 = {}
        for m, c in lhs.items():
            k = {}
            for v, e in m:
                k[v] = k.get(v, 0) + e
            lhs2[tuple(sorted(k.items()))] = c
        return _dadd(lhs2, r, -1), im

def sign_rel(t, S):
    S = set(S)
    if S == {0}: return "(= %s 0)" % t
    if S == {1}: return "(> %s 0)" % t
    if S == {-1}: return "(< %s 0)" % t
    if S == {0, 1}: return "(>= %s 0)" % t
    if S == {0, -1}: return "(<= %s 0)" % t
    if S == {1, -1}: return "(not (= %s 0))" % t
    return "true"

def parse_model(text):
    """(model (define-fun v () Real (/ 1.0 2.0)) ...) -> dict name -> Fraction or None (algebraic)"""
    toks = text.replace("(", " ( ").replace(")", " ) ").split()
    pos = [0]
    def rd():
        t = toks[pos[0]]
        pos[0] += 1
        if t == "(":
            l = []
            while toks[pos[0]] != ")":
                l.append(rd())
            pos[0] += 1
            return l
        return t
    def ev(x):
        if isinstance(x, str):
            return _F(x)
        if x[0] == "-" and len(x) == 2:
            return -ev(x[1])
        if x[0] == "-":
            return ev(x[1]) - ev(x[2])
        if x[0] == "/":
            return ev(x[1]) / ev(x[2])
        raise ValueError
    out = {}
    if not toks:
        return out
    try:
        m = rd()
    except IndexError:
        return out
    for d in m:
        if isinstance(d, list) and d and d[0] == "define-fun":
            try:
                out[d[1]] = ev(d[4])
            except Exception:
                out[d[1]] = None
    return out
