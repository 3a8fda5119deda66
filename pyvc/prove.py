"""prove.py PROP OUT.json [--tier T] [--budget S]: generates and discharges the obligations of one property."""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import z3

import interp as P
import solve as S
import terms as T_
from solve import Hyps, Univ, fresh
from terms import Cx, IS, RS, Unsupported, cx, keep, s_and, s_cmp, s_eq, s_not, s_or, simp, sym

REPO = os.environ.get("VERIF_REPO", "/repo")

TRUSTED = ["pyvc: symbolic interpreter, loop schemas, saturation and quantifier instantiation (this repository's machinery)",
           "z3 and cvc5 (SMT back ends)",
           "pyvc/nplib.py: contracts of Python built-ins, numpy and scipy (assumed, sampled against the real libraries by tools/libtest.py)"]
ASSUME = ["machine arithmetic is treated as exact: floats are mathematical reals, integers are unbounded (rounding is covered only by the bounded executable contract)",
          "inputs are finite numbers; nan and infinities only where an obligation names them",
          "a division by zero yields an unspecified number, and so does the square root of a negative number (with square equal to its argument)"]


class Stop(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, budget):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.budget = budget
        self.prog = P.Program(REPO)
        self.it = P.Interp(self.prog)
        self.obls = []
        self.names = set()
        self.unsupported = []
        self.bounded = []
        self.assume = []
        self.reach = 0
        self.paths = 0
        self.cases = []
        self.partcount = {}
        self.npart = -1
        self.shard = (0, 1)
        self.only = None
        self.parts = {}

    # ------------------------------------------------------------------ inputs
    def n(self, nm):
        return keep(z3.Int(nm + "~0"))

    def real(self, nm):
        return keep(z3.Real(nm))

    def boolean(self, nm):
        return keep(z3.Bool(nm))

    def fn(self, nm, sort=None, dims=1):
        return T_.mk_array(nm, sort, dims)

    def arr(self, nm, *shape, dtype="f"):
        """input array named nm (call inside run)"""
        if dtype == "c":
            a, b = self.fn(nm + "_re", dims=len(shape)), self.fn(nm + "_im", dims=len(shape))
            return self.it.new_arr(shape, lambda *ix: Cx(a(*ix), b(*ix)), "c")
        return self.it.new_arr(shape, self.fn(nm, {"f": RS, "i": IS, "b": z3.BoolSort()}[dtype], len(shape)), dtype)

    def arrf(self, fn, *shape, dtype="f"):
        return self.it.new_arr(shape, fn, dtype)

    def cfn(self, nm, dims=1):
        a, b = self.fn(nm + "_re", dims=dims), self.fn(nm + "_im", dims=dims)
        return lambda *ix: Cx(a(*ix), b(*ix))

    def call(self, f, *a, **k):
        return self.it.call(self.it.func(f) if isinstance(f, str) else f, list(a), k)

    def meth(self, o, name, *a, **k):
        return self.it.call(self.it.getattr(o, name), list(a), k)

    # ------------------------------------------------------------------ execution
    def run(self, run, *hyps, limit=200):
        self.it.hyps = Hyps().plus(*hyps)
        self.it.lib.calls = []
        self.it.loopcache = {}
        self.it.heap = []
        ps = self.it.explore(run, limit)
        self.paths += len(ps)
        return ps

    def returns(self, name, ps, no_raise=True, exc=None):
        """the returning paths; every other path must be impossible"""
        out = []
        for p in ps:
            if p.kind == "return":
                out.append(p)
            elif no_raise:
                self.ob("%s: no error (%s)" % (name, p.value.name if p.kind == "raise" else p.kind), p.hyps, False, quiet=True)
        if not out:
            self.fail("%s: returns a result" % name, "every path ends in an error")
        elif not any(S.consistent(p.hyps) for p in out):
            self.fail("%s: reachable" % name, "the assumptions are contradictory")
        else:
            self.reach += 1
        return out

    def raises(self, name, ps, exc=None):
        """every path must end in an error"""
        bad = False
        for p in ps:
            if p.kind == "raise":
                if exc and p.value.name not in exc:
                    self.ob("%s: error of the documented kind, not %s" % (name, p.value.name), p.hyps, False)
                continue
            self.ob("%s: rejected" % name, p.hyps, False)
            bad = True
        if not bad:
            self.obls.append({"name": "%s: rejected on every path" % name, "status": "proved"})
        self.reach += 1

    # ------------------------------------------------------------------ contracts at call sites
    def use(self, qual, fn):
        """calls of qual are replaced by its contract fn(arguments); NotImplemented (precondition not shown) falls back to the body"""
        def g(it, b):
            try:
                return fn(b)
            except Unsupported:
                return NotImplemented
        self.it.contracts[qual] = g

    def pre(self, name, goal, *hyps):
        """precondition at a call site"""
        ok = S.prove(self.it.hyps.plus(*hyps), goal)
        if ok:
            self.obls.append({"name": "call: " + name, "status": "proved"})
        return ok

    # ------------------------------------------------------------------ obligations
    def fail(self, name, detail):
        self.obls.append({"name": name, "status": "failed", "detail": detail})

    def ob(self, name, hyps, goal, quiet=False, open_ok=False):
        t = time.time()
        try:
            ok = S.prove(hyps, goal)
        except Unsupported as e:
            self.unsupported.append("%s: %s" % (name, e))
            return False
        st = "proved" if ok else "open" if open_ok else "failed"
        d = {"name": name, "status": st}
        if not ok:
            d["detail"] = ("goal: %s\nunder: %s" % (str(simp(goal) if sym(goal) else goal)[:1500], "; ".join(str(h)[:160] for h in hyps.items if sym(h))[:1500]))
        if S.LOG:
            print("%s %.1fs %s" % ("ok  " if ok else "FAIL", time.time() - t, name), flush=True)
        self.obls.append(d)
        return ok

    def eqv(self, name, h, a, b, **k):
        """equality of scalars or complex numbers"""
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = cx(a), cx(b)
            r = self.ob(name + " (real part)", h, self.eq(a.re, b.re), **k)
            return self.ob(name + " (imaginary part)", h, self.eq(a.im, b.im), **k) and r
        return self.ob(name, h, self.eq(a, b), **k)

    def eq(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            return isinstance(a, float) and isinstance(b, float) and repr(a) == repr(b)
        return s_eq(a, b)

    def eqarr(self, name, h, a, n, fn, **k):
        """array a has length n and elements fn"""
        if not P.isarr(a):
            if isinstance(a, P.SymList):
                a = a.arr
            elif isinstance(a, P.PList):
                a = self.it.lib.asarr(a)
            else:
                self.fail(name + ": is an array", repr(a))
                return False
        if a.ndim != 1:
            self.ob(name + ": one-dimensional", h, False)
            return False
        r = self.ob(name + ": length", h, s_eq(a.shape[0], n), **k)
        i = fresh("i")
        return self.eqv(name + ": elements", h.plus(i >= 0, s_cmp("<", i, n)), a.at(i), fn(i), **k) and r

    def part(self, name, f):
        """one group of obligations; what lies outside the verifier's subset is reported, not guessed"""
        self.npart += 1
        if self.only is not None and self.npart not in self.only or self.only is None and self.npart % self.shard[1] != self.shard[0]:
            return
        n0, u0, b0 = len(self.obls), len(self.unsupported), len(self.bounded)
        try:
            f()
        except Unsupported as e:
            self.unsupported.append("%s: %s" % (name, e))
            if S.LOG:
                traceback.print_exc()
        except S.OutOfTime:
            self.unsupported.append("%s: time budget used up" % name)
            raise Stop()
        except (P.PyRaise, P.ReturnSig, P.BreakSig, P.ContinueSig, P.PathDead) as e:
            self.unsupported.append("%s: %r outside of an exploration" % (name, e))
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, RecursionError, NotImplementedError, z3.Z3Exception, ArithmeticError) as e:
            # the code has a form the verifier does not handle
            self.unsupported.append("%s: internal %s: %s" % (name, type(e).__name__, str(e)[:200]))
            if S.LOG:
                traceback.print_exc()
        finally:
            self.it.contracts = {}
            self.partcount[name] = len(self.obls) - n0
            self.parts[self.npart] = {"obligations": self.obls[n0:], "unsupported": self.unsupported[u0:], "bounded": self.bounded[b0:]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("out")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=400)
    ap.add_argument("--jobs", type=int, default=1)
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--only", type=int)
    ap.add_argument("--scale", type=float, default=1)
    a = ap.parse_args()
    if a.jobs > 1:
        res = shards(a)
    else:
        res = run(a)
    json.dump(res, open(a.out, "w"), indent=1, default=str)
    if (S.LOG or os.environ.get("PYVC_SHOW")) and a.shard == "0/1":
        print(json.dumps({k: v for k, v in res.items() if k not in ("obligations", "trusted")}, indent=1, default=str))
        for o in res["obligations"]:
            if o["status"] != "proved":
                print("UNDISCHARGED", o["status"], o["name"], o.get("detail"))
        print(len(res["obligations"]), "obligations,", len([o for o in res["obligations"] if o["status"] == "proved"]), "proved", "%.1f s" % res["wall"])


def spawn(a, out, extra, hashseed):
    import subprocess
    return subprocess.Popen([sys.executable, os.path.abspath(__file__), a.prop, out, "--tier", a.tier] + extra, env=dict(os.environ, PYTHONHASHSEED=str(hashseed)))


def collect(ps, until, what):
    import subprocess
    res = []
    for out, p in ps:
        try:
            p.wait(timeout=max(1, until - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        try:
            res.append(json.load(open(out)))
        except Exception:
            res.append(None if what is None else {"obligations": [], "unsupported": ["%s (exit status %s)" % (what, p.returncode)], "cases": [], "error": None, "byPart": {}})
    return res


def unsettled(p):
    return len([o for o in p["obligations"] if o["status"] == "failed"]), len(p["unsupported"]), len([o for o in p["obligations"] if o["status"] != "proved"])


def shards(a):
    """the parts of a property are independent: spread them over processes and merge the results; a part with
    undischarged obligations is proved again with more time and another ordering (the first proof found counts)"""
    import shutil
    import tempfile
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="pyvc")
    seed0 = int(os.environ.get("PYVC_HASHSEED", "0"))
    try:
        ps = []
        for i in range(a.jobs):
            out = os.path.join(d, "%d.json" % i)
            ps.append((out, spawn(a, out, ["--budget", str(a.budget), "--shard", "%d/%d" % (i, a.jobs)], seed0)))
        parts = collect(ps, t0 + a.budget + 60, "a prover process gave no result")
        best = {}
        for p in parts:
            best.update(p.get("byPart") or {})
        bad = [k for k, p in best.items() if unsettled(p)[0] or unsettled(p)[1]]
        retried = []
        lim = min(2 * a.jobs, 14)
        for rnd in (1, 2):
            left = t0 + a.budget - time.time()
            if not bad or len(bad) > lim:
                break
            if left < 0.3 * a.budget:
                if len(bad) <= 3 and not retried:
                    # there was no time for the second attempt: nothing is said about these
                    for k in bad:
                        best[k] = dict(best[k], obligations=[dict(o, status="open" if o["status"] == "failed" else o["status"]) for o in best[k]["obligations"]],
                                       unsupported=best[k]["unsupported"] + ["part %s: time budget used up" % k])
                break
            retried += bad
            ps = []
            for k in bad:
                out = os.path.join(d, "r%d_%s.json" % (rnd, k))
                ps.append((out, spawn(a, out, ["--budget", str(left), "--only", k, "--scale", "2"], seed0 + rnd)))
            for k, p in zip(bad, collect(ps, t0 + a.budget + 30, None)):
                q = (p or {}).get("byPart", {}).get(k)
                if q is not None and unsettled(q) < unsettled(best[k]):
                    best[k] = q
                    parts.append(dict(p, obligations=[o for o in p["obligations"] if o.get("part") is None], unsupported=[]))
            bad = [k for k in bad if unsettled(best[k])[0] or unsettled(best[k])[1]]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res = dict(parts[0])
    obl, seen = [], {}
    for o in [o for k in sorted(best, key=int) for o in best[k]["obligations"]] + [o for p in parts for o in p["obligations"] if o.get("part") is None]:
        k = seen.get(o["name"])
        if k is not None and k["status"] == o["status"] == "proved":
            k["instances"] = k.get("instances", 1) + o.get("instances", 1)
            continue
        seen.setdefault(o["name"], o)
        obl.append(o)
    res["obligations"] = obl
    res["unsupported"] = [x for p in parts if not p.get("byPart") for x in p["unsupported"]] + [x for k in sorted(best, key=int) for x in best[k]["unsupported"]]
    res["bounded"] = [x for k in sorted(best, key=int) for x in best[k]["bounded"]]
    res["retried"] = retried
    res["cases"] = [x for p in parts for x in p.get("cases", [])]
    fns = {}
    for p in parts:
        for f in p.get("functions", []):
            q, u = f.rsplit(" (", 1)
            if fns.get(q) != "contract)":
                fns[q] = u
    res["functions"] = ["%s (%s" % x for x in sorted(fns.items())]
    res["trusted"] = TRUSTED
    res["assumptions"] = list(dict.fromkeys(x for p in parts for x in p.get("assumptions", [])))
    errs = [p["error"] for p in parts if p.get("error")]
    res["error"] = errs[0] if errs else None
    for k in ("reach", "paths", "solver_seconds"):
        res[k] = sum(p.get(k, 0) for p in parts)
    be = {}
    for p in parts:
        for k, v in p.get("backends", {}).items():
            be[k] = be.get(k, 0) + v
    res["backends"] = be
    pc = {}
    for p in parts:
        pc.update(p.get("parts", {}))
    res["parts"] = pc
    res.pop("byPart", None)
    res["wall"] = time.time() - t0
    return res


def run(a):
    t0 = time.time()
    S.DEADLINE[0] = t0 + a.budget
    res = {"obligations": [], "unsupported": [], "cases": [], "trusted": TRUSTED, "assumptions": list(ASSUME), "error": None}
    c = None
    try:
        c = Ctx(a.prop, a.tier, a.budget)
        c.shard = tuple(int(x) for x in a.shard.split("/"))
        c.only = None if a.only is None else {a.only}
        S.SCALE[0] = a.scale
        import goals
        g = getattr(goals, a.prop, None)
        if g is None:
            res["error"] = None
        else:
            g(c)
    except Stop:
        pass
    except SyntaxError as e:
        res["error"] = "syntax error in the package: %s" % e
    except Exception:
        res["error"] = traceback.format_exc()[-1500:]
    if c is not None:
        for k, p in c.parts.items():
            for o in p["obligations"]:
                o["part"] = k
        res["byPart"] = c.parts
        for nm, ok in c.it.loopobls.items():
            if ok:
                res["obligations"].append({"name": nm, "status": "proved"})
        seen = {}
        for o in c.obls:
            k = o["name"]
            if k in seen and seen[k]["status"] == o["status"] == "proved":
                seen[k]["instances"] = seen[k].get("instances", 1) + 1
                continue
            seen.setdefault(k, o)
            res["obligations"].append(o)
        res["unsupported"] = c.unsupported
        res["cases"] = c.cases
        res["functions"] = ["%s (%s)" % (q, u) for q, u in sorted(c.it.used.items())]
        res["assumptions"] += sorted(c.it.assumed) + c.assume
        res["bounded"] = c.bounded
        res["reach"], res["paths"] = c.reach, c.paths
        res["parts"] = c.partcount
    st = S.Stats
    res["backends"] = dict(st.by, z3_calls=st.z3_calls, cvc5_calls=st.cvc5_calls)
    res["solver_seconds"] = st.z3_time + st.cvc5_time
    res["wall"] = time.time() - t0
    return res


if __name__ == "__main__":
    main()
