"""shortcuts for templates"""
import sys
from fractions import Fraction
F = Fraction
def sp():
    import simpy.expr as X
    return X
def S(name):
    return sp().Symbol(name)

class TL(list):
    """template list with decorator"""
    def add(self, name, **opts):
        def deco(f):
            assert all(t["name"] != name for t in self), name
            self.append(dict(name=name, fn=f, opts=opts))
            return f
        return deco

def R(x):
    """number -> Rat expression"""
    return sp().Rat(x)

# operand makers: (name, maker(h, tag)); every number is symbolic
def _m():
    M = {}
    def op(f):
        M[f.__name__[1:]] = f
        return f
    @op
    def _c(h, t): return R(h.q("c" + t))
    @op
    def _x(h, t): return S("x")
    @op
    def _y(h, t): return S("y")
    @op
    def _ax(h, t): return h.q("a" + t) * S("x")
    @op
    def _ay(h, t): return h.q("a" + t) * S("y")
    @op
    def _axy(h, t): return h.q("a" + t) * S("x") * S("y")
    @op
    def _xn(h, t): return S("x") ** R(h.q("n" + t))
    @op
    def _axn(h, t): return h.q("a" + t, nz=True) * S("x") ** R(h.i("n" + t, -3, 3))
    @op
    def _lin(h, t): return S("x") + R(h.q("b" + t, nz=True))
    @op
    def _alin(h, t): return h.q("a" + t, nz=True) * S("x") + S("y")
    @op
    def _linn(h, t): return (S("x") + R(h.q("b" + t, nz=True))) ** R(h.i("n" + t, -2, 2))
    @op
    def _asin(h, t): return h.q("a" + t, nz=True) * sp().sin(S("x"))
    @op
    def _ex(h, t): return sp().e ** (h.q("a" + t, nz=True) * S("x"))
    @op
    def _api(h, t): return h.q("a" + t) * sp().pi
    @op
    def _ln(h, t): return h.q("a" + t) * sp().log(S("x"))
    @op
    def _sqr(h, t): return sp().sqrt(S("x"))
    @op
    def _inv(h, t): return h.q("a" + t, nz=True) / S("x")
    @op
    def _absx(h, t): return sp().Abs(S("x") + R(h.q("b" + t, nz=True)))
    @op
    def _xy(h, t): return S("x") * S("y") ** R(h.i("n" + t, -2, 2))
    @op
    def _fl(h, t): return sp().Float(0.25)
    @op
    def _r2(h, t): return h.q("a" + t, nz=True) * sp().sqrt(2)
    @op
    def _neg(h, t): return -(S("x") + S("y"))
    @op
    def _twoy(h, t): return 2 ** (h.q("a" + t, nz=True) * S("y"))
    return M
MK = _m()
