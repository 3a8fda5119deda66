"""check PROP: decides one property on the current tree of /repo.

1. the deductive verifier (pyvc/prove.py) generates and discharges the obligations of the property
   from /repo's current sources;
2. the executable contract of the property runs in the repository's own interpreter on the
   verifier's concretised counter-models and on generated inputs (labelled bounded).
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
RT = os.path.join(VERIF, "rt", "run.py")
VENV = "/opt/venv/bin/python"
ORDER = [None]


def rt_env(scratch):
    e = dict(os.environ)
    e.update(MPLBACKEND="Agg", MPLCONFIGDIR=scratch, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HOME=scratch)
    return e


def rt_start(prop, scratch, seed, secs, tag, cases=None, maxn=None):
    out = os.path.join(scratch, "rt_%s.json" % tag)
    cmd = [VENV, RT, prop, out, "--seed", str(seed), "--time", str(secs)]
    if maxn is not None:
        cmd += ["--max", str(maxn)]
    if cases is not None:
        cf = os.path.join(scratch, "cases_%s.json" % tag)
        json.dump(cases, open(cf, "w"))
        cmd += ["--cases", cf]
    log = open(os.path.join(scratch, "rt_%s.log" % tag), "w")
    return subprocess.Popen(cmd, stdout=log, stderr=log, env=rt_env(scratch), cwd=scratch), out, log.name


def rt_wait(h, limit):
    p, out, log = h
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return {"timeout": True}
    try:
        return json.load(open(out))
    except Exception:
        return {"crash": open(log).read()[-2000:]}


def prove_start(prop, scratch, tier, secs):
    out = os.path.join(scratch, "prove.json")
    log = open(os.path.join(scratch, "prove.log"), "w")
    cmd = [sys.executable, os.path.join(HERE, "prove.py"), prop, out, "--tier", tier, "--budget", str(secs), "--jobs", "6"]
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return subprocess.Popen(cmd, stdout=log, stderr=log, env=e, cwd=scratch, start_new_session=True), out, log.name


def prove_wait(h, limit):
    p, out, log = h
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        prove_stop(h)
        return {"error": "time limit of %d s" % limit}
    try:
        return json.load(open(out))
    except Exception:
        return {"error": "verifier ended without a result: " + open(log).read()[-1500:]}


def prove_stop(h):
    import signal
    try:
        os.killpg(h[0].pid, signal.SIGKILL)
    except OSError:
        pass
    h[0].wait()


def write_replay(prop, body):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.json" % prop)
    json.dump(body, open(p, "w"), indent=1)
    return os.path.relpath(p, VERIF)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-rt", action="store_true")
    ap.add_argument("--no-prove", action="store_true")
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    prop, tier = a.prop, a.tier
    start = time.time()
    scratch = tempfile.mkdtemp(prefix="pyvc_")
    try:
        return decide(prop, tier, seed, scratch, start, a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, scratch, start, a):
    thorough = tier == "thorough"
    T1 = 40 if thorough else 12
    budget = 700 if thorough else 520
    ph = None
    if not a.no_prove and os.path.exists(os.path.join(HERE, "prove.py")):
        ph = prove_start(prop, scratch, tier, budget)
    workers = 4 if thorough else 2
    hs = [rt_start(prop, scratch, seed + 1000 * w, T1, "g%d" % w) for w in range(workers)]
    rts = [rt_wait(h, T1 + 120) for h in hs]
    if ph and any(r.get("violation") for r in rts):
        prove_stop(ph)
        pr = {"error": "stopped: the executable contract found a failing input"}
    else:
        pr = prove_wait(ph, budget + 60) if ph else {"error": "not run"}
    if pr.get("cases"):
        h = rt_start(prop, scratch, seed, 0, "cm", pr["cases"])
        rts.append(rt_wait(h, 90))
    viol = next((r["violation"] for r in rts if r.get("violation")), None)
    obls = pr.get("obligations") or []
    undis = [o for o in obls if o["status"] != "proved"]
    unsupported = pr.get("unsupported") or []
    failed = [o for o in undis if o["status"] == "failed"]
    rtfail = [r for r in rts if r.get("crash") or r.get("timeout") or r.get("import_error")]
    if not viol and (undis or unsupported or pr.get("error")) and not a.no_prove and ph:
        # the verifier did not decide: search longer for an input before giving an answer
        T2 = 120 if thorough else 45
        hs = [rt_start(prop, scratch, seed + 77 + 1000 * w, T2, "x%d" % w) for w in range(7)]
        more = [rt_wait(h, T2 + 120) for h in hs]
        rts += more
        viol = next((r["violation"] for r in more if r.get("violation")), None)
        rtfail += [r for r in more if r.get("crash") or r.get("timeout") or r.get("import_error")]
    code, line, replay = 0, None, None
    if viol:
        replay = write_replay(prop, {"property": prop, "case": viol["case"], "message": viol["message"], "found_by": viol["source"], "failed_obligations": undis,
                                     "rerun": "MPLBACKEND=Agg %s rt/run.py replay <this file>" % VENV})
        code, line = 1, "VIOLATION property=%s replay=%s" % (prop, replay)
    elif failed:
        replay = write_replay(prop, {"property": prop, "obligation": failed[0]["name"], "failed_obligations": failed, "verifier_output": failed[0].get("detail"),
                                     "note": "no failing input found"})
        code, line = 1, "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
    elif any(r.get("import_error") for r in rts):
        e = next(r["import_error"] for r in rts if r.get("import_error"))
        replay = write_replay(prop, {"property": prop, "obligation": "package imports", "verifier_output": e})
        code, line = 1, "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
    ev = evidence(prop, tier, seed, pr, rts, undis, unsupported, ph is not None, time.time() - start, 1 if code else 0, rtfail)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
    try:
        import known
        known.report(prop)
    except ImportError:
        pass
    c = ev["coverage"]
    print("%s: %s obligations, %s discharged; %d evaluations of the executable contract; %.0f s" % (prop, c.get("obligations", 0), c.get("discharged", 0), c["evaluations"], time.time() - start))
    for o in undis[:8]:
        print("  undischarged (%s): %s" % (o["status"], o["name"]))
    for u in unsupported[:4]:
        print("  outside the verifier's subset: %s" % u)
    if pr.get("error") and ph:
        print("  verifier: %s" % pr["error"][-300:])
    for r in rtfail[:2]:
        print("  executable contract: %s" % str(r)[-600:])
    if viol:
        print("  " + viol["message"][:400])
    if line:
        print(line)
    return code


def evidence(prop, tier, seed, pr, rts, undis, unsupported, proving, wall, nviol, rtfail):
    obls = pr.get("obligations") or []
    cov = {}
    ev = sum(r.get("evaluations", 0) for r in rts)
    cov["evaluations"] = ev
    cov["distinct_nontrivial"] = sum(r.get("distinct_nontrivial", 0) for r in rts)
    cov["rule"] = "executable contract (bounded): " + next((r["rule"] for r in rts if r.get("rule")), "")
    cov["samples"] = [s for r in rts for s in r.get("samples", [])][:2]
    if proving:
        cov["obligations"] = len(obls)
        cov["discharged"] = len([o for o in obls if o["status"] == "proved"])
        cov["checker_cmd"] = "/opt/veriftools/pyvenv/bin/python pyvc/prove.py %s OUT.json" % prop
        cov["trusted_base"] = pr.get("trusted") or []
        cov["backends"] = pr.get("backends") or {}
        cov["solver_seconds"] = round(pr.get("solver_seconds", 0), 2)
        cov["functions_under_contract"] = pr.get("functions") or []
        cov["obligation_names"] = [o["name"] for o in obls]
        cov["undischarged"] = [{k: o.get(k) for k in ("name", "status", "detail")} for o in undis]
        cov["outside_subset"] = unsupported
        cov["bounded_stand_ins"] = pr.get("bounded") or []
        cov["reachability_checks"] = pr.get("reach", 0)
        cov["paths"] = pr.get("paths", 0)
        if pr.get("error"):
            cov["verifier_error"] = pr["error"]
    return {"property": prop, "tier": tier, "seed": seed, "level": "proof" if proving and obls else "exploration", "coverage": cov,
            "assumptions": pr.get("assumptions") or [], "wall_s": round(wall, 2), "violations": nviol}


if __name__ == "__main__":
    sys.exit(main())
