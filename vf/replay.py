"""Concrete replay on unpatched code.  --serve: JSON lines on stdin;  FILE: re-run the first violation of a replay file."""
import sys, json, os, io, warnings
sys.setrecursionlimit(8000)
warnings.simplefilter("ignore")
from fractions import Fraction

def one(msg):
    from . import harness as HN
    from .run import templates
    HN.load_simpy()
    mod, temps = templates(msg["cid"], msg["tier"])
    t = temps[msg["idx"]] if "idx" in msg else [x for x in temps if x["name"] == msg["template"]][0]
    h = HN.H("conc", params={k: Fraction(v) for k, v in msg["params"].items()}, seed=msg.get("seed", 1), tier=msg["tier"])
    try:
        t["fn"](h)
    except HN.Skip:
        return dict(skipped=True)
    except Exception as ex:
        if h.escaped(ex):
            return dict(fails=[(l, d) for l, d, _ in h.fails], known=h.known_ids)
        import traceback
        return dict(error=traceback.format_exc()[-800:])
    return dict(fails=[(l, d) for l, d, _ in h.fails], known=h.known_ids)

def main():
    if sys.argv[1] == "--serve":
        out = sys.stdout
        sys.stdout = io.StringIO()
        for line in sys.stdin:
            try:
                r = one(json.loads(line))
            except BaseException as ex:
                r = dict(error=repr(ex)[:500])
            sys.stdout = io.StringIO()
            out.write(json.dumps(r) + "\n")
            out.flush()
        return 0
    d = json.load(open(sys.argv[1]))
    bad = 0
    for v in d["violations"][:1]:
        r = one(dict(cid=d["property"], tier=d["tier"], template=v["template"], params=v["params"], seed=d["seed"]))
        print(json.dumps(dict(template=v["template"], params=v["params"], result=r), indent=1))
        bad |= bool(r.get("fails"))
    return 1 if bad else 0

if __name__ == "__main__":
    sys.exit(main())
