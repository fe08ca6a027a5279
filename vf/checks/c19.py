from ..tpl import *
import itertools, random, warnings

BOUNDS = ("status: every ordered tree of up to 6 nodes (quick, a seeded half of those with 6) or 7 nodes (thorough), the kind of every inner node and the state of every leaf symbolic; node choice: the same trees with three sizes of integrand; "
          "search histories: the real search loop over abstract problems, up to 5 (quick) or 7 (thorough) problems whose behaviour (stuck, solved, split in two, alternatives, alternatives that split, repetition of an ancestor) is chosen nondeterministically; "
          "repeated problems: chains of up to three ancestors whose integrands have symbolic coefficients and exponents")
NOTE = "Node kinds and states are solver variables, the statuses expected of a tree are polynomials over them, and each query the code answers is compared with them by the solver; tree shapes are enumerated."

PER = {"quick": 8, "thorough": 120}

def shapes(n):
    """ordered trees with n nodes, as nested tuples of children"""
    if n == 1: return [()]
    out = []
    def forests(m):
        if m == 0: return [()]
        r = []
        for k in range(1, m + 1):
            for t in shapes(k):
                for f in forests(m - k): r.append((t,) + f)
        return r
    return forests(n - 1)

class Tag(str):
    """a node type whose value is decided by the solver"""
    def __new__(cls, table, realise):
        o = str.__new__(cls, "?")
        o.table, o.realise = table, realise
        return o
    def __eq__(self, o):
        if isinstance(o, Tag): return self.value() == o.value()
        c = self.table.get(o)
        return False if c is None else bool(c() == 1)
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.value())
    def value(self):
        for k, c in self.table.items():
            if c() == 1: return k
        return None
    __str__ = __repr__ = lambda self: "<type>"

def templates(tier):
    warnings.simplefilter("ignore")
    T = TL()
    X = sp()
    import importlib
    TF = importlib.import_module("simpy.transforms")
    IN = importlib.import_module("simpy.integration")
    qk = tier == "quick"
    rng = random.Random(19)
    x, y, u, v = S("x"), S("y"), S("u"), S("v")
    SIZES = [x, X.sin(x ** 2), X.sin(X.cos(x) ** 3)]
    def build(h, shape, sized=False):
        """a real tree with symbolic types; per node (solved, failed) as polynomials in the solver's variables"""
        cnt = itertools.count()
        nodes, exp = [], {}
        def mk(sh, parent):
            i = next(cnt)
            e = SIZES[h.choose(3, "size%d" % i)] if sized and not sh else x
            n = TF.Node(e, x, None, parent)
            nodes.append(n)
            n._vid = i
            if parent is not None: parent.children.append(n)
            kids = [mk(c, n) for c in sh]
            if not sh:
                s, f = h.i("s%d" % i, 0, 1), h.i("f%d" % i, 0, 1)
                h.assume(s * f == 0)
                n.type = Tag({"SOLUTION": lambda: s, "FAILURE": lambda: f, "UNSET": lambda: 1 - s - f, "AND": lambda: 0, "OR": lambda: 0}, h) if h.sym else ("SOLUTION" if s else "FAILURE" if f else "UNSET")
                exp[i] = (s, f)
            else:
                o = h.i("o%d" % i, 0, 1)
                w = h.i("u%d" % i, 0, 1) if len(sh) == 1 else 0
                if len(sh) == 1: h.assume(o * w == 0)
                n.type = Tag({"OR": lambda: o, "UNSET": lambda: w, "AND": lambda: 1 - o - w, "SOLUTION": lambda: 0, "FAILURE": lambda: 0}, h) if h.sym else ("OR" if o else "UNSET" if w else "AND")
                allS = anyS = allF = anyF = 1
                for k in kids:
                    ks, kf = exp[k._vid]
                    allS, anyS, allF, anyF = allS * ks, anyS * (1 - ks), allF * kf, anyF * (1 - kf)
                anyS, anyF = 1 - anyS, 1 - anyF
                exp[i] = (o * anyS + (1 - o) * allS, o * allF + (1 - o) * anyF)
            return n
        root = mk(shape, None)
        return root, nodes, exp
    def is1(h, poly, got, label, node):
        h.true(isinstance(got, bool), label + " is a truth value")
        h.true(poly == (1 if got else 0), label, lambda: "node %d reported %s" % (node._vid, got))
    def leaves_of(n):
        return [n] if not n.children else [l for c in n.children for l in leaves_of(c)]
    def up(n):
        return [n] + (up(n.parent) if n.parent is not None else [])
    def show(sh): return "(" + "".join(show(c) for c in sh) + ")"
    todo = [s for k in range(1, 6 if qk else 7) for s in shapes(k)]
    six = shapes(6 if qk else 7)
    todo += rng.sample(six, len(six) // 2) if qk else six
    for sh in todo:
        def f(h, sh=sh):
            root, nodes, exp = build(h, sh)
            for n in nodes[:1] if len(nodes) > 4 else nodes:
                ok, r = h.run(lambda: n.is_solved, "is_solved")
                if ok: is1(h, exp[n._vid][0], r, "is_solved", n)
        T.add("solved:" + show(sh))(f)
        def f(h, sh=sh):
            root, nodes, exp = build(h, sh)
            for n in nodes[:1] if len(nodes) > 4 else nodes:
                ok, r = h.run(lambda: n.is_failed, "is_failed")
                if ok: is1(h, exp[n._vid][1], r, "is_failed", n)
        T.add("failed:" + show(sh))(f)
        def f(h, sh=sh):
            root, nodes, exp = build(h, sh)
            n = root
            ok, r = h.run(lambda: n.is_finished, "is_finished")
            if not ok: return
            s, fl = exp[n._vid]
            h.true(s * fl == 0, "no node is both solved and failed")
            is1(h, s + fl, r, "is_finished", n)
        T.add("finished:" + show(sh))(f)
        def f(h, sh=sh):
            root, nodes, exp = build(h, sh)
            ok, ls = h.run(lambda: root.leaves, "leaves")
            if not ok: return
            want = leaves_of(root)
            h.true(len(ls) == len(want) and all(a is b for a, b in zip(ls, want)), "leaves")
            ok, us = h.run(lambda: root.unfinished_leaves, "unfinished_leaves")
            if not ok: return
            for l in want:
                s, fl = exp[l._vid]
                h.true(s + fl == (0 if any(l is o for o in us) else 1), "unfinished_leaves", lambda: "leaf %d" % l._vid)
            h.true(len(us) == len([l for l in want if any(l is o for o in us)]), "no leaf twice")
            ok, us = h.run(lambda: root.unfinished_children, "unfinished_children")
            if not ok: return
            for c in root.children:
                s, fl = exp[c._vid]
                h.true(s + fl == (0 if any(c is o for o in us) else 1), "unfinished_children", lambda: "child %d" % c._vid)
            for n in nodes:
                h.true(n.root is root, "root")
                h.true(n.distance_from_root == len(up(n)) - 1, "distance")
        T.add("leaves:" + show(sh))(f)
        def f(h, sh=sh):
            root, nodes, exp = build(h, sh)
            for n in leaves_of(root)[:2]:
                ok, r = h.run(lambda: n.is_stale, "is_stale")
                if not ok: continue
                none_above = 1
                for p in up(n)[1:]:
                    s, fl = exp[p._vid]
                    none_above = none_above * (1 - s - fl)
                s, fl = exp[n._vid]
                is1(h, (1 - s - fl) * (1 - none_above), r, "is_stale", n)
        T.add("stale:" + show(sh))(f)
    # which node is worked on next
    pick = [s for k in range(1, 5) for s in shapes(k)] + rng.sample(shapes(5), 8 if qk else 14) + (rng.sample(shapes(6), 8) if qk else shapes(6))
    for bf in (False, True):
        for sh in pick:
            def f(h, sh=sh, bf=bf):
                root, nodes, exp = build(h, sh, sized=len(leaves_of_shape(sh)) < 4)
                s, fl = exp[0]
                h.assume(s + fl == 0)       # the search goes on
                start = nodes[h.choose(len(nodes), "start")]
                I = IN.Integration(breadth_first=bf)
                ok, r = h.run(lambda: I._get_next_node_post_heuristic(start), "next node")
                if not ok: return
                if isinstance(r, str) and r == "SOLVED":
                    ss, _ = exp[start._vid]
                    ok, r = h.run(lambda: I._get_next_node_post_heuristic_breadth_first(root), "next node after a solved part")
                    if not ok: return
                if not h.true(r is not None and any(r is n for n in nodes), "a node of the tree is chosen", lambda: "%r" % (r,)): return
                h.true(not r.children, "the chosen node is a leaf")
                s, fl = exp[r._vid]
                h.true(s + fl == 0, "the chosen node is open", lambda: "node %d" % r._vid)
            if hasattr(IN.Integration, "_get_next_node_post_heuristic") and hasattr(IN.Integration, "_get_next_node_post_heuristic_breadth_first"):
                T.add("next:%s:%s" % ("bf" if bf else "df", show(sh)))(f)
    # a whole search over abstract problems
    probs = []
    def mkp(k):
        return type("Prob%d" % k, (X.SingleFunc,), {"_label": property(lambda s: "prob%d" % k), "_evalf": lambda s, subs: 1 / 0, "diff": lambda s, var: 1 / 0, "latex": lambda s: "p", "__init__": lambda s, inner: X.SingleFunc.__init__(s, inner), "k": k})
    MAXP = 5 if qk else 7
    PR = [mkp(k) for k in range(MAXP + 4)]
    OWN = [S("V%d" % k) for k in range(MAXP + 4)]
    SOL = [S("S%d" % k) for k in range(MAXP + 4)]
    def history(nm, bf, kinds):
        def f(h):
            plan, used = {}, [1]
            def ident(e):
                while not hasattr(e, "k"): e = e.children()[0]
                return e.k
            def fresh():
                if used[0] >= MAXP: return None
                used[0] += 1
                return used[0] - 1
            def expr(k):
                return PR[k]([x, X.sin(x ** 2), X.sin(X.cos(x) ** 3)][k % 3])
            def behaviour(node):
                k = ident(node.expr)
                if k not in plan:
                    b = kinds[h.choose(len(kinds), "kind%d" % k)]
                    sub = []
                    if b in ("and", "or", "one", "parts", "andloop"):
                        need = 2 if b in ("and", "or") else 1
                        for _ in range(need):
                            c = fresh()
                            if c is None: break
                            sub.append(c)
                        if len(sub) < need:
                            b, sub = ("solved", "stuck")[h.choose(2, "last%d" % k)], []
                    if b in ("loop", "andloop", "partsloop"): sub = sub + [0]
                    plan[k] = (b, sub)
                return plan[k]
            class Base(TF.Transform):
                def check(self, node): return self.kind(node)
                def backward(self, node):
                    super().backward(node)
                    self.combine(node)
            class Solved(Base):
                def kind(self, node): return behaviour(node)[0] == "solved"
                def forward(self, node):
                    node.add_child(TF.Node(node.expr, node.var, self, node, type="SOLUTION", solution=SOL[ident(node.expr)], is_filler=True))
                def combine(self, node): node.parent.solution = node.solution
            class Pass(Base):
                def kind(self, node): return False
                def forward(self, node): pass
                def combine(self, node): node.parent.solution = node.solution
            class And(Base):
                hand = False
                def kind(self, node): return not node.is_filler and behaviour(node)[0] in self.does
                does = ("and", "one", "andloop")
                def forward(self, node):
                    ks = behaviour(node)[1]
                    if self.hand:       # as integration by parts does: one child, an AND of a finished and an open part
                        f = TF.Node(node.expr, node.var, Pass(), node, type="AND", is_filler=True)
                        f.add_children([TF.Node(node.expr, node.var, self, f, type="SOLUTION", solution=OWN[ident(node.expr)], is_filler=True)] + [TF.Node(expr(k), node.var, self, f) for k in ks])
                        node.add_child(f)
                        return
                    if len(ks) > 1: node.type = "AND"
                    node.add_children([TF.Node(expr(k), node.var, self, node) for k in ks])
                def combine(self, node):
                    sols = [c.solution for c in node.parent.children]
                    if any(s is None for s in sols): raise ValueError("not yet")
                    node.parent.solution = sum(sols[1:], sols[0])
            class Parts(And):
                hand = True
                does = ("parts", "partsloop")
            class Alt(Base):
                def __init__(self, which): self.which = which
                def __call__(self): return type(self)(self.which)
                def kind(self, node): return behaviour(node)[0] == "or"
                def forward(self, node): node.add_child(TF.Node(expr(behaviour(node)[1][self.which]), node.var, self, node))
                def combine(self, node): node.parent.solution = node.solution
            class Loop(Base):
                def kind(self, node): return behaviour(node)[0] == "loop"
                def forward(self, node): node.add_child(TF.Node(expr(0), node.var, self, node))
                def combine(self, node): node.parent.solution = node.solution
            keepS, keepH, keept, keepl = IN.SAFE_TRANSFORMS[:], IN.HEURISTICS[:], IN.time, IN.Integration.logger
            class Log:
                def log(self, a, b, root): self.root = root
            lg = Log()
            from .c12 import Clock
            try:
                IN.SAFE_TRANSFORMS[:] = [And]
                IN.HEURISTICS[:] = [Solved, Parts, Alt(0), Alt(1), Loop]
                IN.time = Clock(40)
                IN.Integration.logger = lg
                I = IN.Integration(breadth_first=bf)
                ok, r = h.run(lambda: I.integrate(expr(0), x, final=False), "search")
            finally:
                IN.SAFE_TRANSFORMS[:], IN.HEURISTICS[:] = keepS, keepH
                IN.time, IN.Integration.logger = keept, keepl
            if not ok: return
            def solvable(k, above=()):
                if k in above: return False
                b, sub = plan.get(k, ("unknown", []))
                a = above + (k,)
                if b == "solved": return True
                if b in ("and", "one", "parts", "andloop", "partsloop", "loop"): return all(solvable(c, a) for c in sub)
                if b == "or": return any(solvable(c, a) for c in sub)
                return False
            def values(k):
                b, sub = plan[k]
                if b == "solved": return [{k: 1}]
                if b in ("and", "one", "parts"):
                    out = [{-1 - k: 1} if b == "parts" else {}]
                    for c in sub:
                        if not solvable(c): return []
                        nxt = []
                        for o in out:
                            for w in values(c):
                                q = dict(o)
                                for kk, n in w.items(): q[kk] = q.get(kk, 0) + n
                                nxt.append(q)
                        out = nxt
                    return out
                if b == "or": return [w for c in sub if solvable(c) for w in values(c)]
                return []
            if not h.true((r is not None) == solvable(0), "a solution is found exactly when there is one", lambda: "plan %s result %s" % (plan, h.show(r) if r is not None else None)): return
            if r is None: return
            vals = [sum(((SOL[k] if k >= 0 else OWN[-1 - k]) * n for k, n in w.items()), R(0)) for w in values(0)]
            h.true(any(r == w for w in vals), "the solution is assembled from solutions of the parts", lambda: "%s of %s" % (h.show(r), plan))
        T.add("search:%s:%s" % (nm, "bf" if bf else "df"), paths=3000 if qk else 60000)(f)
    if hasattr(IN, "SAFE_TRANSFORMS") and hasattr(IN, "HEURISTICS") and hasattr(IN, "time"):
        for bf in (False, True):
            history("and/or", bf, ["solved", "stuck", "and", "or"])
            history("with loops", bf, ["solved", "stuck", "or", "loop", "and"])
            history("chains", bf, ["solved", "stuck", "one", "or"])
            history("by parts", bf, ["solved", "parts", "or", "stuck"])
            history("by parts with repeats", bf, ["solved", "parts", "partsloop", "or"])
            history("and with repeats", bf, ["solved", "and", "andloop", "or"])
            history("and", bf, ["solved", "and", "stuck"])
            history("or", bf, ["stuck", "solved", "or"])
    # a problem that is being worked on above is not added again
    E = {
        "ax^n": lambda h, i, w: h.q("a%d" % i, nz=True) * w ** R(h.q("n%d" % i)), "sin": lambda h, i, w: X.sin(h.q("a%d" % i) * w) , "yw": lambda h, i, w: h.q("a%d" % i, nz=True) * w * y, "sum": lambda h, i, w: w ** 2 + R(h.q("a%d" % i)) * w, "e": lambda h, i, w: X.e ** (h.q("a%d" % i) * w) * w, "y+w": lambda h, i, w: R(h.q("a%d" % i)) * y + w,
    }
    REF = {
        "ax^n": lambda h, i, j: h.q("a%d" % i, nz=True) == h.q("a%d" % j, nz=True) and h.q("n%d" % i) == h.q("n%d" % j), "e": None,
    }
    def same(k, h, i, j):
        if k == "ax^n": return h.q("a%d" % i, nz=True) == h.q("a%d" % j, nz=True) and h.q("n%d" % i) == h.q("n%d" % j)
        z = dict(nz=True) if k == "yw" else {}
        return h.q("a%d" % i, **z) == h.q("a%d" % j, **z)
    for k, mk in E.items():
        for names, ptype in itertools.product(("xx", "xu", "xux", "xuv", "xxx", "xy"), ("OR", "AND")):
            def f(h, k=k, mk=mk, names=names, ptype=ptype):
                vs = [S(c) for c in names]
                es = [mk(h, i, w) for i, w in enumerate(vs)]
                nodes = []
                for i, (e, w) in enumerate(zip(es, vs)):
                    n = TF.Node(e, w, None, nodes[-1] if nodes else None)
                    if i < len(vs) - 1 and nodes: nodes[-1].children.append(n)
                    nodes.append(n)
                last, parent = nodes[-1], nodes[-2]
                parent.type = ptype
                ok, _ = h.run(lambda: parent.add_child(last), "add_child")
                if not ok: return
                added = any(c is last for c in parent.children)
                j = len(vs) - 1
                if "y" in names and k in ("yw", "y+w"):
                    h.true(True, "different problems after renaming")
                    if k == "yw":      # a x y dx against b y y dy
                        h.true(added, "a different problem is added")
                    return
                rep = any(same(k, h, i, j) for i in range(j))
                if ptype == "AND":
                    if rep:
                        h.true(added and parent.is_failed and not parent.is_solved, "a part of a sum that repeats an ancestor fails the sum")
                        h.true(not parent.unfinished_leaves, "a repeated part is not an open leaf")
                    else:
                        h.true(added and not parent.is_finished and last in parent.unfinished_leaves, "a new part is open")
                    return
                h.true(added != rep, "added unless it repeats an ancestor", lambda: "added %s repeats %s" % (added, rep))
            T.add("repeat:%s:%s:%s" % (k, names, ptype))(f)
        def g(h, k=k, mk=mk):
            e = mk(h, 0, x)
            root = TF.Node(e, x)
            c = TF.Node(e, x, None, root, is_filler=True)
            ok, _ = h.run(lambda: root.add_child(c), "add_child")
            if ok: h.true(root.children == [c] or any(z is c for z in root.children), "a filler is always added")
        T.add("filler:" + k)(g)
    return T

def leaves_of_shape(sh):
    return [sh] if not sh else [l for c in sh for l in leaves_of_shape(c)]
