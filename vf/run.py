"""Check driver:  python -m vf.run C01 [--tier quick|thorough] [--only TEMPLATE] [--debug]
Exit 0 = property held on everything explored, 1 = violation (after replay)."""
import sys, os, json, time, importlib, random, traceback, re, subprocess
sys.setrecursionlimit(8000)
from fractions import Fraction
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

def templates(cid, tier):
    m = importlib.import_module("vf.checks." + cid.lower())
    return m, m.templates(tier)

# -------------------------------------------------------------------- symbolic side (worker)
_W = {}
def worker_init():
    from . import sym as S, harness as HN
    from .solver import Solver
    simpy = HN.load_simpy()
    S.install_fraction()
    install_shims()
    _W["solver"] = Solver()
    _W["replay"] = None

def install_shims():
    from . import sym as S, harness as HN
    import math, time as _t
    sm = S.ShimMath()
    for m in HN.simpy_modules():
        d = m.__dict__
        d["int"] = S.ShimInt
        d["float"] = S.ShimFloat
        if d.get("math") is math:
            d["math"] = sm
        for k in list(d):
            v = d[k]
            if getattr(math, k, None) is v and callable(v) and getattr(v, "__module__", None) == "math":
                d[k] = S.wrap_math(v)
    import simpy.expr as X
    for c in all_subclasses(X.Expr):
        f = c.__dict__.get("_func")
        if f is not None and getattr(f, "__module__", None) == "math":
            c._func = staticmethod(S.wrap_math(f))
    # deterministic random ids (wildcard names)
    import simpy.utils as U
    cnt = [0]
    def rid(n):
        cnt[0] += 1
        return ("id%d" % cnt[0]).ljust(max(n, 4), "z")
    def reset():
        cnt[0] = 0
    _W["reset_ids"] = reset
    for m in HN.simpy_modules():
        if m.__dict__.get("random_id") is not None:
            m.__dict__["random_id"] = rid

def all_subclasses(c):
    out = [c]
    for s in c.__subclasses__():
        out += all_subclasses(s)
    return out

def reset_global_caches():
    """class-level memo tables computed lazily by simpy (would leak symbolic state between paths)"""
    _W["reset_ids"]()

def run_job(job):
    """explore one template; where stale number tokens (two numbers that turn out equal only after they were
    printed) produced a candidate that did not replay, explore again with tokens that fork on equality"""
    cid, tier, idx, seed, budget, debug = job
    t0 = time.time()
    r = _run_once(job, None)
    left = budget - (time.time() - t0)
    if r.get("unres") and not r["viol"] and left > 1.5 and templates(cid, tier)[1][idx].get("opts", {}).get("tok", "token0") == "token0":
        r2 = _run_once((cid, tier, idx, seed, left, debug), "token")
        if not r2["errors"] and (r2["viol"] or len(r2["unres"]) < len(r["unres"])):
            for k in ("queries", "solver_s", "unknown", "wall"): r2[k] += r[k]
            r2["known"] += [k for k in r["known"] if not any(set(k["known"]) == set(q["known"]) for q in r2["known"])]
            return r2
    return r

def _run_once(job, tok):
    cid, tier, idx, seed, budget, debug = job
    if not _W:
        worker_init()
    from . import sym as S, harness as HN
    mod, temps = templates(cid, tier)
    t = temps[idx]
    t0 = time.time()
    sol = _W["solver"]
    q0, st0, un0 = sol.queries, sol.time, sol.unknown
    log0 = dict(sol.log)
    opts = t.get("opts", {})
    eng = S.Engine(sol, seed=seed, max_paths=opts.get("paths", 4000), deadline=t0 + budget)
    eng.tier = tier
    eng.tokmode = tok or opts.get("tok", "token0")
    eng.conc_budget = opts.get("conc", 12)
    S.EXACT_FLOAT[0] = bool(opts.get("exact_float"))
    h = HN.H("sym", seed=seed, tier=tier)
    cover = {}
    first = [True]
    res = dict(template=t["name"], paths=0, checked=0, checks=0, undef=0, viol=[], unres=[], known=[], errors=[], verdicts={}, sample=None)
    def path():
        h.reset()
        reset_global_caches()
        if S.EXACT_FLOAT[0]:
            import simpy.expr as X
            X.Pi.value, X.E.value = S.mkf(S.VPI), S.mkf(S.VE)
        if first[0]:
            first[0] = False
            sys.setprofile(lambda f, ev, a: cover.setdefault((os.path.basename(f.f_code.co_filename), f.f_code.co_name), 1)
                           if ev == "call" and "/simpy/" in f.f_code.co_filename else None)
        try:
            return t["fn"](h)
        except HN.Skip:
            return None
        except Exception as ex:
            if not h.escaped(ex):
                raise
        finally:
            sys.setprofile(None)
    gen = eng.explore(path)
    try:
        for st, _ in gen:
            if st != "ok":
                if debug and st == "incon": print("  incon", t["name"], eng.incon[-1], file=sys.stderr)
                # failures recorded before the path became inconclusive still count
                if st == "abort" or not h.fails:
                    continue
            if h.checks:
                res["checked"] += 1
            res["checks"] += h.checks
            res["undef"] += h.undef
            for v in h.decided:
                res["verdicts"][v] = res["verdicts"].get(v, 0) + 1
            if res["sample"] is None and h.checks and st == "ok":
                res["sample"] = "%s: path with %d decisions, facts %s" % (
                    t["name"], len(eng.trace), [str(k) + " in " + str(sorted(v)) for k, v in list(eng.facts.items())[:4]])
            if h.fails:
                handle_fails(cid, tier, idx, t, h, eng, res, seed, debug)
                if len(res["viol"]) >= 3:
                    break
            if len(res["unres"]) > 40:
                break
    except Exception:
        res["errors"].append(traceback.format_exc()[-1500:])
    finally:
        gen.close()
        if S.EXACT_FLOAT[0]:
            import simpy.expr as X, math
            X.Pi.value, X.E.value = math.pi, math.e
            S.EXACT_FLOAT[0] = False
    res["stats"] = eng.stats
    res["incon"] = eng.incon
    res["conc"] = eng.concretized
    res["cover"] = sorted("%s:%s" % k for k in cover)
    res["queries"] = sol.queries - q0
    res["solver_s"] = sol.time - st0
    res["unknown"] = sol.unknown - un0
    res["qkinds"] = {k: v - log0.get(k, 0) for k, v in sol.log.items()}
    res["wall"] = time.time() - t0
    return res

def handle_fails(cid, tier, idx, t, h, eng, res, seed, debug):
    """every failing assertion of this path: get models, replay, classify"""
    from . import sym as S
    fails, kids = list(h.fails), list(h.known_ids)
    seen_models = []
    ngoal = 0
    def models():
        for label, detail, goal in fails[:3]:
            if goal:
                facts, goals = goal
                for m in eng.param_model(goals=goals, tries=2, timeout=3.0):
                    yield m
        for m in eng.param_model(tries=6, timeout=3.0):
            yield m
        if eng.models:
            for mm in eng.models[:4]:
                try:
                    yield {k: S.eval_val(eng.norm(v), mm) for k, v in eng.params.items()}
                except Exception:
                    pass
    done = False
    tried = 0
    for m in models():
        if m is None or any(v is None for v in m.values()):
            continue
        key = tuple(sorted((k, str(v)) for k, v in m.items()))
        if key in seen_models:
            continue
        seen_models.append(key)
        tried += 1
        rep = replay(cid, tier, idx, m, seed)
        if debug: print("  replay", t["name"], {k: str(v) for k, v in m.items()}, rep, file=sys.stderr)
        if rep.get("fails"):
            rk = rep.get("known", [])
            entry = dict(template=t["name"], params={k: str(v) for k, v in m.items()}, label=rep["fails"][0][0], detail=rep["fails"][0][1], known=rk)
            if rk:
                if not any(set(k["known"]) == set(rk) for k in res["known"]):
                    res["known"].append(entry)
                done = True
                if kids:
                    break
            else:
                res["viol"].append(entry)
                done = True
                break
        if tried >= 10:
            break
    if not done:
        res["unres"].append(dict(template=t["name"], fails=[(l, d) for l, d, _ in fails[:2]], tried=tried, known=kids,
                                 facts=[str(k) + " in " + str(sorted(v)) for k, v in list(eng.facts.items())[:8]]))
        if debug: print("  UNRESOLVED", res["unres"][-1], file=sys.stderr)

def replay(cid, tier, idx, params, seed):
    p = _W.get("replay")
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.Popen([PY, "-m", "vf.replay", "--serve"], cwd=VERIF, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        _W["replay"] = p
    msg = json.dumps(dict(cid=cid, tier=tier, idx=idx, params={k: str(v) for k, v in params.items()}, seed=seed)) + "\n"
    try:
        p.stdin.write(msg.encode())
        p.stdin.flush()
        import select
        r, _, _ = select.select([p.stdout], [], [], 60)
        if not r:
            p.kill()
            _W["replay"] = None
            return {"timeout": True}
        line = p.stdout.readline()
        return json.loads(line)
    except (OSError, ValueError):
        _W["replay"] = None
        return {"error": "replay died"}

# -------------------------------------------------------------------- driver
def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("cid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--all", action="store_true", help="print every violating template")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod, temps = templates(a.cid, a.tier)
    if a.list:
        for t in temps: print(t["name"])
        return 0
    idxs = [i for i, t in enumerate(temps) if not a.only or re.search(a.only, t["name"])]
    total_budget = getattr(mod, "BUDGET", {}).get(a.tier, 240 if a.tier == "quick" else 3000)
    per = getattr(mod, "PER", {}).get(a.tier, 60 if a.tier == "quick" else 600)
    jobs = [(a.cid, a.tier, i, seed, temps[i].get("opts", {}).get("budget", per), a.debug) for i in idxs]
    jobs.sort(key=lambda j: -temps[j[2]].get("opts", {}).get("cost", 1))
    results = []
    skipped = []
    if a.debug or a.jobs == 1:
        for j in jobs:
            r = run_job(j)
            results.append(r)
            print("%-34s paths=%d checked=%d undef=%d nf=%s verd=%s incon=%d trunc=%d viol=%d unres=%d known=%d q=%d qs=%.1f wall=%.1f" % (
                r["template"], r["stats"]["paths"], r["checked"], r["undef"], r["stats"].get("nf"), r["verdicts"], r["stats"]["inconclusive"], r["stats"]["truncated"], len(r["viol"]), len(r["unres"]), len(r["known"]), r["queries"], r["solver_s"], r["wall"]), set(r["incon"]) or "", *r["errors"])
    else:
        results, skipped = pool_run(jobs, a.jobs, t0 + total_budget, per)
    return report(a.cid, a.tier, seed, mod, temps, results, skipped, time.time() - t0, a.only, a.all)

def pool_run(jobs, n, deadline, per):
    """work queue over forked processes; a job that exceeds its time is killed and counted as not finished"""
    import select
    results, skipped = [], []
    queue = list(jobs)
    live = {}
    def spawn():
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            for o in live.values():
                os.close(o["w"])
                os.close(o["r"])
            rc = 0
            try:
                fin = os.fdopen(r1, "r")
                worker_init()
                for line in fin:
                    job = json.loads(line)
                    try:
                        res = run_job(tuple(job))
                    except BaseException:
                        res = dict(template=str(job), errors=[traceback.format_exc()[-1500:]])
                    data = (json.dumps(res) + "\n").encode()
                    while data:
                        k = os.write(w2, data)
                        data = data[k:]
            except BaseException:
                rc = 3
            try:
                if _W.get("replay"): _W["replay"].kill()
                if _W.get("solver"): _W["solver"].close()
            except BaseException:
                pass
            os._exit(rc)
        os.close(r1)
        os.close(w2)
        return dict(pid=pid, w=w1, r=r2, buf=b"", job=None, start=0)
    def give(w):
        while queue:
            if time.time() > deadline:
                skipped.extend(j for j in queue)
                queue.clear()
                return False
            j = queue.pop(0)
            w["job"], w["start"] = j, time.time()
            os.write(w["w"], (json.dumps(j) + "\n").encode())
            return True
        return False
    for _ in range(min(n, len(jobs))):
        w = spawn()
        live[w["r"]] = w
        if not give(w):
            pass
    def retire(w, kill=False):
        live.pop(w["r"], None)
        try: os.close(w["w"])
        except OSError: pass
        if kill:
            kill_tree(w["pid"])
        os.close(w["r"])
        try: os.waitpid(w["pid"], 0)
        except OSError: pass
    for w in list(live.values()):
        if w["job"] is None: retire(w)
    while live:
        r, _, _ = select.select(list(live), [], [], 1.0)
        for fd in r:
            w = live[fd]
            d = os.read(fd, 1 << 20)
            if not d:
                if w["job"] is not None:
                    results.append(dict(template=str(w["job"][2]), errors=["worker died"]))
                retire(w)
                if queue:
                    w2 = spawn()
                    live[w2["r"]] = w2
                    if not give(w2): retire(w2)
                continue
            w["buf"] += d
            while b"\n" in w["buf"]:
                line, w["buf"] = w["buf"].split(b"\n", 1)
                results.append(json.loads(line))
                w["job"] = None
                if not give(w):
                    retire(w)
                    break
        now = time.time()
        for w in list(live.values()):
            if w["job"] is not None and now - w["start"] > w["job"][4] * 2 + 40:
                skipped.append(w["job"])
                w["job"] = None
                retire(w, kill=True)
                if queue:
                    w2 = spawn()
                    live[w2["r"]] = w2
                    if not give(w2): retire(w2)
    return results, skipped

def kill_tree(pid):
    """end a worker of ours and the solver/replay children it started"""
    try:
        kids = subprocess.run(["pgrep", "-P", str(pid)], capture_output=True, text=True).stdout.split()
    except OSError:
        kids = []
    for k in [str(pid)] + kids:
        try: os.kill(int(k), 9)
        except OSError: pass

def known_file():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return {}
    return {e["id"]: e for e in json.load(open(p)) if e.get("status") == "known"}

def report(cid, tier, seed, mod, temps, results, skipped, wall, only, allv=False):
    kf = known_file()
    viol, unres, known, errors = [], [], {}, []
    agg = dict(paths=0, checked=0, checks=0, undef=0, queries=0, solver_s=0.0, unknown=0, incon=0, trunc=0, decisions=0, conc=0, nf=0, aborted=0)
    cover, samples, verd, qk, incon = set(), [], {}, {}, {}
    vac = []
    for r in results:
        errors += ["%s: %s" % (r.get("template"), e) for e in r.get("errors", [])]
        if "stats" not in r: continue
        for v in r["viol"]: viol.append(v)
        unres += r["unres"]
        for k in r["known"]:
            for kid in k["known"]:
                if kid in kf and kf[kid]["property"] == cid: known.setdefault(kid, k)
                else: viol.append(k)
        s = r["stats"]
        agg["paths"] += s["paths"]; agg["incon"] += s["inconclusive"]; agg["trunc"] += s["truncated"]; agg["decisions"] += s["decisions"]
        agg["aborted"] += s["aborted"]; agg["nf"] += s.get("nf", 0)
        for k in ("checked", "checks", "undef", "queries", "solver_s", "unknown", "conc"): agg[k] += r[k]
        cover |= set(r["cover"])
        if r["sample"] and len(samples) < 6: samples.append(r["sample"])
        for k, v in r["verdicts"].items(): verd[k] = verd.get(k, 0) + v
        for k, v in r["qkinds"].items(): qk[k] = qk.get(k, 0) + v
        for x in r["incon"]:
            incon[x[:100]] = incon.get(x[:100], 0) + 1
        if not r["checked"] and not r["viol"]: vac.append(r["template"])
    rc = 0
    out = []
    if viol:
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        path = os.path.join("evidence", "replay", "%s.json" % cid)
        v = viol[0]
        json.dump(dict(property=cid, tier=tier, seed=seed, violations=viol[:10], how="/opt/venv/bin/python -m vf.replay %s (in /verif) re-runs the first case on the unpatched code" % path), open(os.path.join(VERIF, path), "w"), indent=1)
        for v in (viol if allv else viol[:5]):
            print("  %s  template=%s params=%s\n    %s: %s" % (cid, v["template"], v["params"], v["label"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (cid, path))
        rc = 1
    for kid in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (cid, kf[kid]["what"]))
    ev = dict(property=cid, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=len(viol),
              coverage=dict(
                  states=agg["paths"], transitions=agg["decisions"], traces_validated_against_impl=sum(1 for _ in viol) + len(known),
                  samples=samples,
                  what="states = symbolic paths executed through the real code (one per class of inputs that take the same branches); transitions = solver-decided branch decisions",
                  templates=len(results), templates_not_finished=[temps[j[2]]["name"] for j in skipped],
                  paths_reaching_an_assertion=agg["checked"], assertions_checked=agg["checks"], assertions_vacuous_undefined=agg["undef"],
                  value_equalities=dict(verd), closed_by_normal_form_and_confirmed_by_solver=agg["nf"],
                  solver_queries=agg["queries"], solver_queries_by_kind=qk, solver_seconds=round(agg["solver_s"], 2), solver_unknown_or_timeout=agg["unknown"],
                  paths_infeasible=agg["aborted"], paths_inconclusive=agg["incon"], inconclusive_reasons=dict(sorted(incon.items(), key=lambda z: -z[1])[:12]),
                  paths_not_explored_budget=agg["trunc"], values_concretised=agg["conc"],
                  templates_without_reached_assertion=vac,
                  unresolved_candidates=[dict(template=u["template"], fails=u["fails"][:1], tried=u["tried"]) for u in unres[:10]], unresolved_count=len(unres),
                  functions_encoded=sorted(cover)[:250], functions_encoded_count=len(cover),
                  bounds=getattr(mod, "BOUNDS", ""), exhaustive=(agg["trunc"] == 0 and agg["incon"] == 0 and not skipped and not errors)),
              assumptions=getattr(mod, "ASSUMPTIONS", []) + COMMON)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(VERIF, "evidence", cid + ".json"), "w"), indent=1)
    print("%s %s: %d templates, %d paths (%d reached an assertion), %d assertions, %d queries, solver %.1fs, inconclusive %d, unexplored %d, unresolved %d, not finished %d, wall %.1fs" % (
        cid, tier, len(results), agg["paths"], agg["checked"], agg["checks"], agg["queries"], agg["solver_s"], agg["incon"], agg["trunc"], len(unres), len(skipped), wall))
    if vac: print("  no assertion reached in:", vac[:20])
    for e in errors[:2]: print("  ERROR", e if len(e) < 900 else e[:150] + " ... " + e[-700:])
    if allv:
        cnt = {}
        for u in unres:
            cnt[u["template"]] = cnt.get(u["template"], 0) + 1
            if cnt[u["template"]] <= 1 and len(cnt) <= 25: print("  UNRES", u["template"], str(u["fails"][0])[:170], u["known"] or "", str(u["facts"])[:150])
        print("  UNRES counts", cnt)
        for r in sorted(results, key=lambda r: -r.get("wall", 0))[:40]:
            if r.get("wall", 0) > 6 or r.get("stats", {}).get("inconclusive"): print("  SLOW/INCON %s wall=%.1f paths=%d" % (r["template"], r["wall"], r["stats"]["paths"]), set(r["incon"]))
    if rc == 0 and errors and len(errors) * 2 > len(results):
        return 2
    if rc == 0 and agg["checked"] == 0 and not known:
        print("  ERROR: vacuous run")
        return 2
    return rc

COMMON = [
    "int, float, math, random ids and the clock are replaced in simpy's modules by stand-ins that accept symbolic numbers; Fraction is subclassed",
    "text of a symbolic number is an opaque token, equal exactly for equal numbers; the relative text order of different numbers is fixed arbitrarily",
    "a symbolic rational is never exactly the double used for pi or e",
    "symbols and arguments of roots/logs are taken at points where they are non-zero (measure-zero sets excluded)",
    "z3 is trusted for unsat; every reported violation is replayed on the unmodified code",
]

if __name__ == "__main__":
    sys.exit(main())
