"""Runs the executable contract of one property in the repository's own interpreter.

run.py PROP OUT.json --seed S --time T [--max N] [--cases FILE]
run.py replay FILE        re-runs one stored case; exit 1 when it violates its contract
"""
import argparse
import hashlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
import numpy as np  # noqa: E402


def contracts():
    import props_axis
    import props_spec
    import props_time
    import props_wave
    out = {}
    for m in (props_time, props_spec, props_wave, props_axis):
        for v in vars(m).values():
            if isinstance(v, type) and getattr(v, "id", ""):
                out[v.id] = v
    return out


def evaluate(P, c):
    from base import Skip
    try:
        return P.check(c), False
    except Skip:
        return None, True
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "deltares_wave_toolbox" in f.filename]
        if where:
            return "raised %r at %s:%s" % (e, os.path.basename(where[-1].filename), where[-1].name), False
        raise


def shrink(P, c, msg, limit=200):
    n = 0
    again = True
    while again and n < limit:
        again = False
        for d in P.shrink(c):
            n += 1
            try:
                m, s = evaluate(P, d)
            except Exception:
                continue
            if m and not s:
                c, msg, again = d, m, True
                break
            if n >= limit:
                break
    return c, msg


def main():
    if sys.argv[1] == "replay":
        r = json.load(open(sys.argv[2]))
        if "case" not in r:
            print("no input stored: undischarged obligation", r.get("obligation"))
            return 1
        m, s = evaluate(contracts()[r["property"]](), r["case"])
        print("contract %s: %s" % (r["property"], m or "holds on this case"))
        return 1 if m else 0
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--time", type=float, default=10)
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--cases")
    a = ap.parse_args()
    res = {"property": a.prop, "evaluations": 0, "skipped": 0, "distinct_nontrivial": 0, "samples": [], "violation": None}
    try:
        import base
        P = contracts()[a.prop]()
        res["rule"] = P.rule
    except Exception as e:
        res["import_error"] = "".join(traceback.format_exception_only(type(e), e)).strip()
        json.dump(res, open(a.out, "w"))
        return 0
    D = base.Dict()
    rng = np.random.default_rng([a.seed, int(a.prop[1:])])
    seen = set()
    start = time.time()

    def one(c, src):
        m, sk = evaluate(P, c)
        if sk:
            res["skipped"] += 1
            return False
        res["evaluations"] += 1
        k = hashlib.md5(base.dumps(c).encode()).digest()[:8]
        if k not in seen:
            seen.add(k)
            try:
                nt = bool(P.nontrivial(c))
            except Exception:
                nt = False
            if nt:
                res["distinct_nontrivial"] += 1
                if len(res["samples"]) < 2 and len(base.dumps(c)) < 700:
                    res["samples"].append(c)
        if m:
            c, m = shrink(P, c, m)
            res["violation"] = {"message": m, "case": c, "source": src}
            return True
        return False

    stop = False
    if a.cases:
        for c in json.load(open(a.cases)):
            try:
                if one(c, "counter-model"):
                    stop = True
                    break
            except Exception:
                res["bad_cases"] = res.get("bad_cases", 0) + 1
    while not stop and time.time() - start < a.time and res["evaluations"] + res["skipped"] < a.max:
        stop = one(P.gen(rng, D), "generator")
    res["seconds"] = round(time.time() - start, 2)
    json.dump(res, open(a.out, "w"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
