"""Validates the oracle: the symbolic denotation (den.py) against the independent numeric evaluator (neval.py) on
random trees, including derivatives (against numeric differentiation)."""
import random, sys
from fractions import Fraction
from . import sym as S, den as D, neval as N, poly as P
from .solver import Solver
mp = N.mpmath

def num_atom(a, env):
    A = P.ATOMS[a]
    k = A.kind
    if k == "I": return mp.mpc(0, 1)
    if k == "W": return mp.exp(mp.mpc(0, 1))
    if k == "const": return mp.pi if a == P.PI_ID else mp.e
    if k == "prime": return mp.mpf(A.data)
    if k == "sym": return abs(env[A.data])
    if k == "T":
        if P.W_ID in A.data.atoms(): raise KeyError(k)      # formal root of a trigonometric polynomial
        return num_poly(A.data, env)
    if k == "LN": return mp.log(num_atom(A.data, env))
    if k == "ang":
        kind, v = A.data
        return (mp.asin if kind == "asin" else mp.atan)(num_val(v, env))
    raise KeyError(k)

def num_poly(p, env):
    t = mp.mpf(0)
    for m, c in p.t.items():
        z = mp.mpf(Fraction(c).numerator) / Fraction(c).denominator
        for a, e in m:
            if a == P.W_ID:
                e = num_val(e, env) if isinstance(e, P.Val) else mp.mpf(Fraction(e).numerator) / Fraction(e).denominator
                z = z * mp.exp(mp.mpc(0, 1) * e)
                continue
            x = num_atom(a, env)
            if isinstance(e, P.Val): e = num_val(e, env)
            elif type(e) is not int: e = mp.mpf(e.numerator) / e.denominator
            z = z * x ** e
        t = t + z
    return t

def num_val(v, env):
    n = num_poly(v.num, env)
    for f, k in v.den:
        n = n / num_poly(f, env) ** k
    return n

def rtree(rng, d):
    if d == 0 or rng.random() < .15:
        r = rng.random()
        if r < .5: return ("sym", rng.choice("xy"))
        if r < .85: return Fraction(rng.randint(-5, 5), rng.choice((1, 1, 2, 3)))
        return (rng.choice(("pi", "e")),)
    op = rng.choice(("+", "+", "*", "*", "-", "/", "^", "^", "sin", "cos", "tan", "log", "abs", "asin", "atan", "neg"))
    if op == "^":
        return (op, rtree(rng, d - 1), Fraction(rng.randint(-3, 4), rng.choice((1, 1, 2, 3))) if rng.random() < .8 else rtree(rng, d - 1))
    n = {"+": 3, "*": 2, "-": 2, "/": 2}.get(op, 1)
    return (op,) + tuple(rtree(rng, d - 1) for _ in range(n))

def main(n=400, seed=5):
    S.install_fraction()
    eng = S.Engine(Solver(), max_paths=20000)
    rng = random.Random(seed)
    done = bad = dd = 0
    for t in range(n):
        tr = rtree(rng, 3)
        kind = t % 3
        full = ("D", tr, "x") if kind == 0 else tr
        def path():
            for s in "xy": eng.scen[s] = (1, -1)[eng.choose(2)]
            try:
                v = D.Den().d(full)
            except (P.Undefined, ZeroDivisionError):
                return None
            # read facts at the point chosen below
            return v, dict(eng.facts), dict(eng.scen)
        k = 0
        for st, r in eng.explore(path):
            k += 1
            if k > 60: break
            if st != "ok" or r is None: continue
            v, facts, scen = r
            for _ in range(3):
                env = {s: mp.mpf(rng.randint(100, 2500)) / 1000 * scen[s] for s in "xy"}
                try:
                    if any((mp.sign(mp.re(num_poly(q, env))) not in T) for q, T in facts.items() if P.W_ID not in q.atoms()): continue
                    if any(P.W_ID in q.atoms() for q in facts): continue
                    a = num_val(v, env)
                    if kind == 0:
                        f = lambda z: N.NEval(dict(env, x=z)).v(tr)
                        h = mp.mpf(10) ** -12
                        z = env["x"]
                        b = (f(z + h) - f(z - h)) / (2 * h)
                        tol = mp.mpf(10) ** -9
                    else:
                        b = N.NEval(env).v(tr)
                        tol = mp.mpf(10) ** -20
                except (N.Undef, ZeroDivisionError, KeyError, OverflowError, ValueError):
                    continue
                done += 1
                dd += kind == 0
                if abs(a - b) > tol * (1 + abs(a) + abs(b)):
                    bad += 1
                    if bad < 5: print("MISMATCH", full, {k: str(x)[:8] for k, x in env.items()}, mp.nstr(a, 15), mp.nstr(b, 15), v)
    print("oracle self-test: %d points (%d derivatives), %d mismatches" % (done, dd, bad))
    return 1 if bad or done < 100 else 0

if __name__ == "__main__":
    sys.setrecursionlimit(8000)
    sys.exit(main(int(sys.argv[1]) if len(sys.argv) > 1 else 400))
