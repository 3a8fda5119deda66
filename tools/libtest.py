"""Samples the trusted part of the verifier against the real thing (development tool, not part of any check).

Each function of the package is executed symbolically with arrays of unknown length and content (pyvc), once; the terms that come out are then
evaluated, with the meaning the functional terms are meant to have (sums, Fourier coefficients from the definition, Simpson's weights, ...), at random
concrete inputs, and compared with what the real function returns for them. A difference shows an error in the interpreter, in a loop
invariant, or in a contract of numpy or scipy in pyvc/nplib.py.

    python3-vt tools/libtest.py [SAMPLES] [NAME...]
"""
import json
import math
import os
import random
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/pyvc")
import numpy as np
import scipy.integrate
import z3

import interp as P
import prove
import solve as S
import terms as T_
from terms import FN, Cx, cx, sym


class Skip(Exception):
    pass


def hilk(n, _m={}):
    """kernel of the discrete Hilbert transform, from its definition: multiply by -i sign(frequency)"""
    if n not in _m:
        _m[n] = [sum((2 if 2 * k < n else 0) * math.sin(2 * math.pi * ((k * d) % n) / n) for k in range(1, n)) / n for d in range(n)]
        k = np.array(_m[n])
        assert abs(k.sum()) < 1e-12 and np.allclose(k, -k[(-np.arange(n)) % n], atol=1e-12), n
        import scipy.signal
        assert np.allclose(scipy.signal.hilbert(np.eye(n), axis=0).imag, [[k[(j - i) % n] for i in range(n)] for j in range(n)], atol=1e-12), n
    return _m[n]


class Ev:
    """value of a term for concrete inputs"""

    def __init__(self, env, fns):
        self.env, self.fns, self.memo = env, fns, {}

    def __call__(self, t):
        if isinstance(t, Cx):
            return complex(self(t.re), self(t.im))
        if not sym(t):
            return t if isinstance(t, (bool, float, int)) else float(t)
        k = t.get_id()
        if k not in self.memo:
            self.memo[k] = self.ev(t)
        return self.memo[k]

    def fn(self, f):
        k = f.kind
        sc = [s if isinstance(s, str) else self(s) for s in f.scal]
        g = [(lambda fn: lambda *ix: self(fn(*ix)))(fn) for _d, fn in f.clos]
        if k in ("SUM", "CUMSUM"):
            n = [self(d) for d in f.clos[0][0]]
            r = 0.0
            import itertools
            for ix in itertools.product(*[range(max(0, int(q))) for q in n]):
                r += g[0](*ix)
            return r
        if k == "CNT":
            return sum(bool(g[0](i)) for i in range(max(0, sc[0])))
        if k == "NTH":
            i, c = 0, 0
            while i < 500:
                if g[0](i):
                    if c == sc[0]:
                        return i
                    c += 1
                i += 1
            raise Skip
        if k == "FIRST":
            return next((i for i in range(max(0, sc[0])) if g[0](i)), max(0, sc[0]))
        if k == "LAST":
            return next((i for i in reversed(range(max(0, sc[0]))) if g[0](i)), -1)
        if k in ("ARGMAX", "ARGMAXP"):
            v = [g[0](i) if k == "ARGMAX" or g[1](i) else -math.inf for i in range(sc[0])]
            return v.index(max(v))
        if k in ("PERM", "INVP"):
            o = sorted(range(sc[1]), key=lambda i: g[0](i))
            return o[sc[0]] if k == "PERM" else o.index(sc[0])
        if k[:3] in ("FFT", "IFT"):
            kk, n = sc
            v = np.array([complex(g[0](j), g[1](j) if len(g) > 1 else 0) for j in range(n)])
            s = -1 if k[:3] == "FFT" else 1
            r = sum(v[j] * complex(math.cos(2 * math.pi * ((kk * j) % n) / n), s * math.sin(2 * math.pi * ((kk * j) % n) / n)) for j in range(n))
            if s == 1:
                r /= n
            return r.real if k.endswith("r") else r.imag
        if k == "SIMP":
            return float(scipy.integrate.simpson(np.array([g[0](i) for i in range(sc[0])]), dx=1.0)) if sc[0] > 0 else 0.0
        if k == "INTERP":
            n = sc[1]
            return float(np.interp(sc[0], [g[0](i) for i in range(n)], [g[1](i) for i in range(n)], left=sc[2], right=sc[3]))
        raise Skip("functional " + k)

    def ev(self, t):
        if t.get_id() in FN:
            return self.fn(FN[t.get_id()])
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return t.numerator_as_long() / t.denominator_as_long()
        k = t.decl().kind()
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = str(t.decl().name())
            if nm == "PI":
                return math.pi
            if nm in self.env:
                return self.env[nm]
            a = [self(c) for c in t.children()]
            if nm in self.fns:
                return self.fns[nm](*a)
            el = {"SQRT": lambda x: math.sqrt(x) if x >= 0 else 0.0, "EXP": math.exp, "LOG": lambda x: math.log(x), "SIN": math.sin, "COS": math.cos, "TANH": math.tanh,
                  "POW": lambda x, y: x ** y, "RND": lambda x: int(np.round(x)),
                  "HILK": lambda n, d: hilk(n)[d % n],
                  "SIMPW": lambda i, n: float(scipy.integrate.simpson(np.eye(n)[i], dx=1.0))}
            if nm in el:
                return el[nm](*a)
            raise Skip("unknown " + nm)
        if k == z3.Z3_OP_ITE:
            return self(t.arg(1) if self(t.arg(0)) else t.arg(2))
        if k == z3.Z3_OP_AND:
            return all(self(c) for c in t.children())
        if k == z3.Z3_OP_OR:
            return any(self(c) for c in t.children())
        if k == z3.Z3_OP_IMPLIES:
            return not self(t.arg(0)) or self(t.arg(1))
        a = [self(c) for c in t.children()]
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_MUL:
            return math.prod(a)
        if k == z3.Z3_OP_SUB:
            return a[0] - sum(a[1:])
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and a[1] == 0:
            raise Skip("division by zero")
        if k == z3.Z3_OP_DIV:
            return a[0] / a[1]
        if k == z3.Z3_OP_IDIV:
            return a[0] // a[1] if a[1] > 0 else -(a[0] // -a[1])
        if k == z3.Z3_OP_MOD:
            return a[0] % abs(a[1])
        if k == z3.Z3_OP_TO_REAL:
            return float(a[0])
        if k == z3.Z3_OP_TO_INT:
            return math.floor(a[0] + 1e-12)
        if k == z3.Z3_OP_POWER:
            return a[0] ** a[1]
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1]
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k == z3.Z3_OP_EQ:
            return a[0] == a[1] if t.arg(0).sort() != z3.RealSort() else abs(a[0] - a[1]) <= 1e-9 * (abs(a[0]) + abs(a[1])) + 1e-14
        if k == z3.Z3_OP_NOT:
            return not a[0]
        raise Skip("operator %s" % t.decl())

    def hyp(self, h):
        if sym(h):
            return bool(self(h))
        lo = 0 if h.lo is None else int(self(h.lo))
        hi = lo + 12 if h.hi is None else int(self(h.hi))
        for i in range(lo, hi):
            b = h.fn(i)
            if isinstance(b, (tuple, list)):
                bs = b
            else:
                bs = [b]
            for x in bs:
                if not sym(x) and not isinstance(x, bool):
                    continue
                if not self(x):
                    return False
        return True

    def val(self, v):
        if P.isarr(v):
            import itertools
            sh = [int(self(d)) for d in v.shape]
            out = np.zeros(sh, complex)
            for ix in itertools.product(*[range(q) for q in sh]):
                out[ix] = complex(self(v.at(*ix)))
            return {"a": [[x.real, x.imag] for x in out.ravel()], "s": sh}
        if isinstance(v, P.SymList):
            return self.val(v.arr)
        if isinstance(v, P.PList):
            v = v.items
        if isinstance(v, (tuple, list)):
            return {"t": [self.val(x) for x in v]}
        if isinstance(v, Cx) or sym(v) or isinstance(v, (int, float, bool)) or hasattr(v, "numerator"):
            x = complex(self(v))
            return {"v": [x.real, x.imag]}
        if v is None:
            return None
        raise Skip("value %r" % type(v))


REAL = r'''
import json, sys, warnings, os
warnings.simplefilter("ignore")
os.environ["MPLBACKEND"] = "Agg"
sys.path.insert(0, sys.argv[1])
import numpy as np, importlib
def dec(x):
    if isinstance(x, dict) and "a" in x:
        v = np.array([complex(*q) for q in x["a"]])
        return v if x["c"] else v.real
    return float("inf") if x == "inf" else x
def enc(v):
    if isinstance(v, (list, tuple)):
        if len(v) and not any(isinstance(q, (list, tuple, np.ndarray)) for q in v) and isinstance(v, list):
            v = np.array(v)
        else:
            return {"t": [enc(q) for q in v]}
    if isinstance(v, np.ndarray):
        w = v.astype(complex)
        return {"a": [[q.real, q.imag] for q in w.ravel()], "s": list(v.shape)}
    if v is None:
        return None
    q = complex(v)
    return {"v": [q.real, q.imag]}
out = []
for mod, fn, args, kw in json.load(open(sys.argv[2])):
    f = getattr(importlib.import_module("deltares_wave_toolbox.cores." + mod), fn)
    try:
        r = enc(f(*[dec(a) for a in args], **{k: dec(v) for k, v in kw.items()}))
    except Exception as e:
        r = {"raise": type(e).__name__}
    out.append(r)
json.dump(out, open(sys.argv[3], "w"))
'''


def close(a, b):
    if a is None or b is None:
        return a is b
    if "t" in a and "t" in b:
        return len(a["t"]) == len(b["t"]) and all(close(x, y) for x, y in zip(a["t"], b["t"]))
    fa, fb = a.get("a") or ([a["v"]] if "v" in a else []), b.get("a") or ([b["v"]] if "v" in b else [])
    if "a" in a and "a" in b and math.prod(a["s"]) == 0 == math.prod(b["s"]):
        return True
    if len(fa) != len(fb) or "t" in a or "t" in b:
        return "t" in a and "a" in b and len(a["t"]) * 1 == len(fb) and all(close(x, {"v": y}) for x, y in zip(a["t"], fb)) if "t" in a else False
    sc = max([abs(complex(*x)) for x in fa + fb if all(map(math.isfinite, x))] + [1e-12])
    for x, y in zip(fa, fb):
        x, y = complex(*x), complex(*y)
        if x != x and y != y or x == y:
            continue
        if not abs(x - y) <= 1e-8 * sc:
            return False
    return True


def sig(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return [float(rng.choice((-2, -1, -1, 0, 0, 1, 1, 2))) for _ in range(n)]
    return [rng.gauss(0, 1) for _ in range(n)]


def pos(rng, n):
    return [abs(x) for x in sig(rng, n)]


def uni(rng, n, lo=None):
    a, d = (rng.choice((0.0, 0.5, -1.25)) if lo is None else lo), rng.choice((0.125, 0.25, 0.5))
    return [a + d * i for i in range(n)]


# name, module, function, arguments: ("arr", kind, size name) | ("real", lo, hi) | ("const", value), maker(rng) -> {name: value}
def cases():
    U = lambda t: (lambda c, n: T_)
    out = []

    def add(mod, fn, spec, make, pre=(), n0=2, **kw):
        out.append((mod, fn, spec, make, kw))
    A = lambda nm, n="n", c=False: ("arr", nm, n, c)
    Rl = lambda nm: ("real", nm)
    K = lambda v: ("const", v)

    def two(rng):
        n = rng.randrange(2, 9)
        return {"n": n, "t": uni(rng, n), "x": sig(rng, n)}
    for w in ("down", "up"):
        add("core_time", "determine_zero_crossing", [A("t"), A("x"), K(w)], two)

    def waves(rng):
        d = two(rng)
        n, t = d["n"], d["t"]
        m = rng.randrange(2, 4)
        w = sorted(rng.sample([t[0] + (t[-1] - t[0]) * q / 16 for q in range(17)], m))
        if not all(any(a <= z <= b for z in t) for a, b in zip(w, w[1:])):
            raise Skip
        return dict(d, m=m, w=w)
    add("core_time", "determine_params_individual_waves", [A("w", "m"), A("t"), A("x")], waves)

    def ht(rng):
        n = rng.randrange(1, 8)
        return {"n": n, "h": [float(rng.randrange(1, 5)) for _ in range(n)], "T": [rng.random() for _ in range(n)], "p": rng.random(), "e": 100 * rng.random()}
    add("core_time", "sort_wave_params", [A("h"), A("T")], ht)

    def hts(rng):
        d = ht(rng)
        return dict(d, h=sorted(d["h"], reverse=True))
    add("core_time", "highest_waves_params", [A("h"), A("T"), Rl("p")], hts)
    add("core_time", "exceedance_wave_height", [A("h"), Rl("e")], hts)
    add("core_spectral", "time2freq", [A("t"), A("x")], two)
    add("core_spectral", "time2freq_nyquist", [A("t"), A("x")], two)
    add("core_spectral", "compute_spectrum_time_series", [A("t"), A("x")], two)

    def cplx(rng):
        n = rng.randrange(2, 9)
        return {"n": n, "x": [complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(n)]}

    def unf(rng):
        N = rng.randrange(2, 9)
        n = N // 2 + 1
        f = [i / (N * 0.25) for i in range(n)]
        return {"n": n, "f": f, "x": [complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(n)], "odd": N % 2 == 1}
    for odd in (False, True):
        add("core_spectral", "unfold_spectrum", [A("f"), A("x", "n", True), K(odd)], unf)

    def fav(rng):
        n = rng.randrange(3, 11)
        f = uni(rng, n, 0.0)
        return {"n": n, "f": f, "s": pos(rng, n), "d": (f[1] - f[0]) * rng.choice((0.3, 1, 1.4, 1.6, 2, 3.1))}
    add("core_spectral", "frequency_averaging", [A("f"), A("s"), Rl("d")], fav)

    def filt(rng):
        d = two(rng)
        n, dt = d["n"], d["t"][1] - d["t"][0]
        fs = [k / (n * dt) for k in range(n)]
        c = lambda: rng.choice(fs[:n // 2 + 1]) + rng.choice((0, 0.01, -0.01, 0.3))
        a, b = sorted((abs(c()), abs(c())))
        return dict(d, lo=a, hi=b)
    add("core_spectral", "bandpassfilter", [A("t"), A("x"), Rl("lo"), Rl("hi")], filt)

    def coh(rng):
        n = rng.randrange(4, 11)
        t = uni(rng, n)
        return {"n": n, "t": t, "x": sig(rng, n), "y": sig(rng, n), "d": rng.choice((1, 1.7, 2)) / (n * (t[1] - t[0]))}
    add("core_spectral", "coherence", [A("t"), A("x"), A("y"), Rl("d")], coh)

    def momc(rng):
        n = rng.randrange(2, 11)
        f = uni(rng, n, rng.choice((0.0, 0.125, -0.25)))
        q = lambda: rng.choice(f) + rng.choice((0, 0.01, -0.02, 0.3))
        lo, hi = sorted((q(), q()))
        return {"n": n, "f": f, "s": pos(rng, n), "lo": max(lo, f[0]), "hi": hi}
    for m in (-1, 0, 1, 2):
        for lim in ("", "l", "h", "lh"):
            add("core_wavefunctions", "compute_moment", [A("f"), A("s"), K(m)], momc, **({"f_min": "lo"} if "l" in lim else {}), **({"f_max": "hi"} if "h" in lim else {}))

    def tps(rng):
        n = rng.randrange(3, 9)
        return {"n": n, "f": uni(rng, n, 0.125), "s": [x + 0.01 for x in pos(rng, n)]}
    add("core_wavefunctions", "compute_tps", [A("f"), A("s")], tps)
    add("core_wavefunctions", "compute_spectrum_params", [A("f"), A("s")], tps)

    def jon(rng):
        n = rng.randrange(3, 9)
        f = uni(rng, n, rng.choice((0.0, 0.125, -0.25)))
        return {"n": n, "f": f, "fp": 0.2 + rng.random(), "hm0": 1 + rng.random(), "gam": 1 + 3 * rng.random()}
    add("core_wavefunctions", "create_spectrum_jonswap", [A("f"), Rl("fp"), Rl("hm0")], jon, gammaPeak="gam")
    add("core_wavefunctions", "create_spectrum_jonswap", [A("f"), Rl("fp"), Rl("hm0")], jon)
    add("core_wavefunctions", "create_spectrum_piersonmoskowitz", [A("f"), Rl("fp"), Rl("hm0")], jon)

    def dis(rng):
        n = rng.randrange(1, 5)
        return {"n": n, "w": [rng.choice((0.0, 0.5, 2.0)) + rng.random() for _ in range(n)], "h": 10 ** rng.uniform(-1, 2)}
    add("core_dispersion", "disper", [A("w"), Rl("h")], dis)

    def eng(rng):
        n = rng.randrange(2, 7)
        a = uni(rng, n)
        return {"n": n, "a": a, "v": rng.choice(a) + rng.choice((0, 0.01, -0.03, 3.0, -3.0))}
    add("core_engine", "approx_array_index", [A("a"), Rl("v")], eng)
    return out


def snippet_cases():
    """the functions of snippets.py, their arguments by parameter name"""
    import ast
    out = []
    for st in ast.parse(open(V + "/tools/snippets.py").read()).body:
        if not isinstance(st, ast.FunctionDef):
            continue
        names = [a.arg for a in st.args.args]
        spec = [("arr", a, "n", a == "z") if a in "xyuz" else ("real" if a in "vw" else "int", a) for a in names]

        def make(rng, names=names):
            n = rng.randrange(3, 8)
            d = {"n": n}
            for a in names:
                d[a] = [complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(n)] if a == "z" else sorted(sig(rng, n)) if a == "u" else sig(rng, n) if a in "xy" \
                    else rng.randrange(3) if a == "k" else rng.choice((rng.gauss(0, 2), float(rng.randrange(-2, 3)), rng.randrange(-4, 5) / 2))
            if "u" in d and len(set(d["u"])) < n and st.name not in ("ss_left", "ss_right", "ss_vec"):
                d["u"] = [x + 0.25 * i for i, x in enumerate(d["u"])]
            return d
        out.append(("core_time", st.name, spec, make, {}))
    return out


def main():
    a = sys.argv[1:]
    N = int(a[0]) if a and a[0].isdigit() else 40
    only = [x for x in a if not x.isdigit() and not x.startswith("--")]
    d = tempfile.mkdtemp(prefix="libtest")
    snip = "--snippets" in a
    if snip:
        # a package of which core_time is the file of snippets
        import shutil
        shutil.copytree("/repo/deltares_wave_toolbox", d + "/repo/deltares_wave_toolbox")
        shutil.copy(V + "/tools/snippets.py", d + "/repo/deltares_wave_toolbox/cores/core_time.py")
        os.environ["VERIF_REPO"] = d + "/repo"
        prove.REPO = os.environ["VERIF_REPO"]
    open(d + "/real.py", "w").write(REAL)
    bad = 0
    for mod, fn, spec, make, kw in (snippet_cases() if snip else cases()):
        if only and fn not in only:
            continue
        c = prove.Ctx("C01", "quick", 600)
        label = "%s(%s%s)" % (fn, ", ".join(str(s[1]) for s in spec), "".join(", %s" % k for k in kw))

        def run():
            args = []
            for s in spec:
                if s[0] == "arr":
                    args.append(c.arr(s[1], c.n(s[2]), dtype="c" if s[3] else "f"))
                else:
                    args.append(c.real(s[1]) if s[0] == "real" else c.n(s[1]) if s[0] == "int" else s[1])
            return c.call("%s.%s" % (mod, fn), *args, **{k: c.real(v) for k, v in kw.items()})
        hyps = []
        ax = [s[1] for s in spec if s[0] == "arr"][0] if spec[0][0] == "arr" else None
        n = c.n("n")
        if mod == "core_spectral" or fn == "determine_zero_crossing":
            hyps = [n >= 2]
        elif mod == "core_wavefunctions":
            hyps = [n >= 2]
        import goals
        if snip:
            hyps = [n >= 3]
            if any(x[1] == "u" for x in spec):
                uf = c.fn("u")
                hyps.append(S.Univ(0, n - 1, lambda i: uf(i) <= uf(i + 1) if fn in ("ss_left", "ss_right", "ss_vec") else uf(i) < uf(i + 1)))
            if any(x[1] == "k" for x in spec):
                hyps += [c.n("k") >= 0, c.n("k") <= 2]
        elif fn not in ("determine_params_individual_waves", "sort_wave_params", "highest_waves_params", "exceedance_wave_height", "disper"):
            hyps = [n >= 2, goals.uniform(c.fn(ax), n)]
        elif fn == "determine_params_individual_waves":
            hyps = goals.wave_hyps(c.fn("t"), n, c.fn("w"), c.n("m")) + [n >= 2, c.n("m") >= 2]
        else:
            hyps = [n >= 1]
        try:
            ps = c.run(run, *hyps)
        except Exception as e:
            print("%-60s NOT EXECUTED %s" % (label, str(e)[:150]), flush=True)
            bad += 1
            continue
        rng = random.Random(5)
        samples, calls, why = [], [], {}
        for _ in range(N * 3):
            if len(samples) >= N:
                break
            try:
                m = make(rng)
                if "odd" in m and m["odd"] != spec[2][1]:
                    continue
                env, fns = {}, {}
                for k, v in m.items():
                    if isinstance(v, list):
                        if any(isinstance(x, complex) for x in v):
                            fns[k + "_re"] = (lambda v: lambda i: complex(v[i]).real)(v)
                            fns[k + "_im"] = (lambda v: lambda i: complex(v[i]).imag)(v)
                        else:
                            fns[k] = (lambda v: lambda i: v[i])(v)
                    else:
                        env[k] = env[k + "~0"] = v
                ev = Ev(env, fns)
                got = None
                for p in ps:
                    if all(ev.hyp(h) for h in p.hyps.items):
                        got = ev.val(p.value) if p.kind == "return" else {"raise": p.value.name}
                        break
                if got is None:
                    raise Skip("no path applies")
            except (Skip, IndexError, ZeroDivisionError, OverflowError) as e:
                if '--trace' in a:
                    raise
                why[repr(e)[:100]] = why.get(repr(e)[:100], 0) + 1
                continue
            args = []
            for s in spec:
                v = m[s[1]] if s[0] != "const" else s[1]
                if isinstance(v, list):
                    v = {"a": [[complex(x).real, complex(x).imag] for x in v], "c": s[3]}
                args.append(v)
            calls.append((mod, fn, args, {k: m[v] for k, v in kw.items()}))
            samples.append((m, got))
        json.dump(calls, open(d + "/in.json", "w"))
        subprocess.run(["/opt/venv/bin/python", d + "/real.py", os.environ.get("VERIF_REPO", "/repo"), d + "/in.json", d + "/out.json"], check=True)
        real = json.load(open(d + "/out.json"))
        diff = [(m, g, r) for (m, g), r in zip(samples, real) if (("raise" in (g or {})) != ("raise" in (r or {}))) or not ("raise" in (g or {}) or close(g, r))]
        print("%-60s %3d paths %3d samples agree%s %s" % (label, len(ps), len(samples) - len(diff), ", %d DIFFER" % len(diff) if diff else "", why or ""), flush=True)
        for m, g, r in diff[:2]:
            print("     in %s\n     terms %s\n     real  %s" % (str(m)[:400], str(g)[:300], str(r)[:300]))
        bad += bool(diff) or not samples
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    print("%d functions differ or were not sampled" % bad)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
