"""Independent numeric evaluator (mpmath, 40 digits) of simpy trees and reference tuples, used for replay.
Raises Undef where the real-valued expression is undefined."""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import mpmath
from mpmath import mpf, mp
from fractions import Fraction
mp.dps = 40
sys.path.remove('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

class Undef(Exception):
    pass

def q(x):
    x = Fraction(x)
    return mpf(x.numerator) / mpf(x.denominator)

def power(b, x, bx=None, xx=None):
    """bx/xx: exact rational base/exponent when known (None otherwise); bx is False when the base depends on symbols"""
    if x == 0:
        return mpf(1)
    if b == 0:
        if x > 0: return mpf(0)
        raise Undef
    if abs(b) < mpf(10) ** -30 and x < 0: raise Undef
    if b > 0:
        if abs(x * mpmath.log(b)) > 4000: raise Undef
        return b ** x
    if xx is not None and xx.denominator == 1:
        return b ** int(xx)
    if xx is not None and bx is not False and xx.denominator % 2 == 1:
        r = abs(b) ** x
        return -r if xx.numerator % 2 else r
    if xx is None and x == mpmath.nint(x):
        return b ** int(x)
    raise Undef

class NEval:
    def __init__(self, env, exact=None, opaque=None, center=None):
        self.env = env
        self.center = center      # the point at which a derivative is being taken
        self.opaque = opaque or {}
    def exact(self, e):
        """exact rational value of a symbol-free node, or None"""
        if isinstance(e, (int, Fraction)): return Fraction(e)
        n = type(e).__name__
        if n == "Rat": return Fraction(e.value)
        if isinstance(e, tuple):
            a = [self.exact(z) for z in e[1:]] if e[0] in ("+", "*", "-", "/", "neg") else [None]
            if any(z is None for z in a): return None
            if e[0] == "+": return sum(a, Fraction(0))
            if e[0] == "-": return a[0] - a[1]
            if e[0] == "neg": return -a[0]
            if e[0] == "/": return a[0] / a[1] if a[1] else None
            r = Fraction(1)
            for z in a: r *= z
            return r
        if n in ("Sum", "Prod"):
            a = [self.exact(z) for z in e.terms]
            if any(z is None for z in a): return None
            r = Fraction(0 if n == "Sum" else 1)
            for z in a: r = r + z if n == "Sum" else r * z
            return r
        return None
    def symfree(self, e):
        if isinstance(e, tuple):
            if e[0] == "sym": return False
            return all(self.symfree(z) for z in e[1:] if not isinstance(z, (str, dict)))
        if hasattr(e, "children"):
            if type(e).__name__ == "Symbol": return False
            if type(e).__name__ in self.opaque: return False
            return all(self.symfree(c) for c in e.children())
        return True
    def pw(self, be, xe):
        b, x = self.v(be), self.v(xe)
        return power(b, x, None if self.symfree(be) else False, self.exact(xe))
    def v(self, e):
        if isinstance(e, (int, Fraction)): return q(e)
        if isinstance(e, float):
            if e != e or e in (float("inf"), float("-inf")): raise Undef
            return mpf(e)
        if isinstance(e, mpf): return e
        if isinstance(e, tuple): return self.ref(e)
        n = type(e).__name__
        if n == "Rat": return q(e.value)
        if n == "Float": return self.v(e.value)
        if n == "Symbol": return self.env[e.name]
        if n == "Pi": return +mp.pi
        if n == "E": return +mp.e
        if n in ("Infinity", "NegInfinity", "NaN"): raise Undef
        if n == "Sum":
            r = mpf(0)
            for t in e.terms: r += self.v(t)
            return r
        if n == "Prod":
            r = mpf(1)
            for t in e.terms: r *= self.v(t)
            return r
        if n == "Power": return self.pw(e.base, e.exponent)
        if n == "log": return self.log(self.v(e.inner), self.v(e.base))
        if n == "Abs": return abs(self.v(e.inner))
        if hasattr(e, "is_inverse") and hasattr(e, "func"):
            return self.trig(("a" if e.is_inverse else "") + e.func, self.v(e.inner))
        if n in self.opaque: return self.opaque[n](self, e)
        raise TypeError("cannot evaluate " + n)
    def log(self, x, b):
        if x <= 0 or b <= 0 or b == 1: raise Undef
        return mpmath.log(x) / mpmath.log(b)
    def trig(self, f, x):
        tiny = mpf(10) ** -25
        if f == "sin": return mpmath.sin(x)
        if f == "cos": return mpmath.cos(x)
        s, c = mpmath.sin(x), mpmath.cos(x)
        if f in ("tan", "sec"):
            if abs(c) < tiny: raise Undef
            return s / c if f == "tan" else 1 / c
        if f in ("cot", "csc"):
            if abs(s) < tiny: raise Undef
            return c / s if f == "cot" else 1 / s
        if f in ("asin", "acos"):
            if abs(x) > 1:
                if abs(x) < 1 + tiny: x = mpmath.sign(x)
                else: raise Undef
            return mpmath.asin(x) if f == "asin" else mpmath.acos(x)
        if f == "atan": return mpmath.atan(x)
        raise TypeError(f)
    def ref(self, e):
        op = e[0]
        if op == "+":
            r = mpf(0)
            for t in e[1:]: r += self.v(t)
            return r
        if op == "*":
            r = mpf(1)
            for t in e[1:]: r *= self.v(t)
            return r
        if op == "-": return self.v(e[1]) - self.v(e[2])
        if op == "neg": return -self.v(e[1])
        if op == "/":
            d = self.v(e[2])
            if abs(d) < mpf(10) ** -30: raise Undef
            return self.v(e[1]) / d
        if op == "^": return self.pw(e[1], e[2])
        if op == "log": return self.log(self.v(e[1]), self.v(e[2]) if len(e) > 2 else +mp.e)
        if op == "abs": return abs(self.v(e[1]))
        if op == "sym": return self.env[e[1]]
        if op == "pi": return +mp.pi
        if op == "e": return +mp.e
        if op == "D":
            return self.deriv(e[1], e[2])
        if op == "subst":
            env = dict(self.env)
            env.update({k: self.v(v) for k, v in e[2].items()})
            return NEval(env, opaque=self.opaque, center=self.center).v(e[1])
        return self.trig(op, self.v(e[1]))
    def deriv(self, e, name):
        """4th-order central difference at high precision"""
        x0 = self.env[name]
        h = mpf(10) ** -8
        def f(x):
            env = dict(self.env)
            env[name] = x
            return NEval(env, opaque=self.opaque, center=self.env).v(e)
        return (8 * (f(x0 + h) - f(x0 - h)) - (f(x0 + 2 * h) - f(x0 - 2 * h))) / (12 * h)
