"""Opaque antiderivatives: expression nodes standing for 'any function whose derivative is the given integrand'"""
from .tpl import *

MAX = 8

class Opaques:
    """opq0..opq7: classes of simpy expressions; opq_i(v) is an arbitrary antiderivative of integrand i at v"""
    def __init__(self):
        X = sp()
        self.cls = []
        self.what = {}
        for i in range(MAX):
            def mk(i):
                c = type("Opq%d" % i, (X.SingleFunc,), {
                    "_label": property(lambda s: "opq%d" % i), "_evalf": lambda s, subs: 1 / 0, "diff": lambda s, var: 1 / 0, "latex": lambda s: "opq",
                    "__init__": lambda s, inner: X.SingleFunc.__init__(s, inner)})
                return c
            self.cls.append(mk(i))
    def reset(self):
        self.what = {}
    def new(self, integrand, var):
        i = len(self.what)
        if i >= MAX: raise RuntimeError("too many sub-integrals")
        self.what[i] = (integrand, var.name)
        return self.cls[i](var)
    def table(self):
        """for harness.equal(opaque=...): denotations (symbolic and numeric)"""
        def den(i):
            def f(ev, e):
                g, name = self.what[i]
                if hasattr(ev, "env"): return num(i, g, name, ev, e)
                from . import den as D
                from .poly import vatom, atom
                iv = ev.d(e.inner)
                inner = D.Den(ev.opaque)
                outer = ev
                inner.sym = lambda n: iv if n == name else outer.sym(n)
                gv = inner.d(g)
                ev.keep.append(inner)
                a = atom("opq", (i, iv, gv), "opq%d(%r)" % (i, iv), dict(diff=lambda x, memo: gv * D.dval(iv, x, memo)))
                return vatom(a)
            return f
        def num(i, g, name, ev, e):
            from . import neval as N
            mp = N.mpmath
            if ev.center is None: raise N.Undef
            u0 = N.NEval(ev.center, opaque=ev.opaque, center=ev.center).v(e.inner)
            u1 = ev.v(e.inner)
            tot = mp.mpf(0)
            # the other symbols stay where the enclosing point has them
            for t, w in GL:
                env = dict(ev.env)
                env[name] = u0 + (u1 - u0) * t
                tot += w * N.NEval(env, opaque=ev.opaque, center=ev.center).v(g)
            return mp.mpf(7 + 3 * i) / 11 + (u1 - u0) * tot
        return {"Opq%d" % i: den(i) for i in range(MAX)}

def _gl():
    from . import neval as N
    mp = N.mpmath
    r = mp.sqrt(mp.mpf(3) / 5)
    h = mp.mpf(1) / 2
    return [(h * (1 - r), mp.mpf(5) / 18), (h, mp.mpf(8) / 18), (h * (1 + r), mp.mpf(5) / 18)]

GL = _gl()
