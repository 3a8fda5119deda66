"""Executable contracts of spectral parameters, design spectra, dispersion, reflection, B&G: C12..C20"""
import math
import signal as _sig

import numpy as np
import scipy.integrate
from base import Contract, Skip, close, fl, raises

import deltares_wave_toolbox.cores.core_dispersion as cd
import deltares_wave_toolbox.cores.core_spectral as cs
import deltares_wave_toolbox.cores.core_wave_decomposition as cwd
import deltares_wave_toolbox.cores.core_wavefunctions as cw
from deltares_wave_toolbox.series import Series
from deltares_wave_toolbox.spectrum import Spectrum


def nearest(f, v):
    d = np.abs(f - v)
    i = int(np.argmin(d))
    if len(f) > 1 and math.isfinite(v):
        o = np.sort(d)
        if o[1] - o[0] < 1e-7 * (f[1] - f[0]):
            raise Skip
    return i


def moment(f, S, m, fmin=None, fmax=None):
    """the moment by definition"""
    f0 = f
    if m < 0 and f[0] == 0:
        f, S = f[1:], S[1:]
    lo = f[0] if fmin is None else fmin
    hi = f0[-1] if fmax is None else fmax
    y = f ** float(m) * S
    if hi <= f[-1]:
        i, j = nearest(f, lo), nearest(f, hi)
        if j < i:
            raise Skip
        return float(scipy.integrate.simpson(y[i:j + 1], x=f[i:j + 1])) if j > i else 0.0
    i, j = nearest(f, lo), len(f) - 1
    r = float(scipy.integrate.simpson(y[i:j + 1], x=f[i:j + 1])) if j > i else 0.0
    fe = f[-1]
    p = m - 4
    return r + S[-1] * fe ** 5 * ((0.0 if math.isinf(hi) else hi ** p) - fe ** p) / p


def density(rng, n):
    k = str(rng.choice(["u", "u", "bump", "int", "flat", "tail", "sparse"]))
    if k == "u":
        S = rng.random(n)
    elif k == "bump":
        j = np.arange(n)
        S = np.exp(-((j - rng.uniform(0, n)) / max(1, n * rng.uniform(0.02, 0.5))) ** 2)
    elif k == "int":
        S = rng.integers(0, 4, size=n).astype(float)
    elif k == "flat":
        S = np.ones(n)
    elif k == "tail":
        S = 1.0 / (1.0 + np.arange(n)) ** 2
    else:
        S = rng.random(n) * (rng.random(n) < 0.4)
    return S * 10 ** rng.uniform(-3, 3)


def wf(c):
    return c["f0"] + c["df"] * np.arange(c["n"] if "x" not in c else len(c["x"]))


def af(c):
    """the axis as it is passed: of integers where the case says so"""
    return wf(c).astype(int) if c.get("ints") else wf(c)


def ints(rng, f0, df):
    return bool(f0 == int(f0) and df == int(df) and rng.random() < 0.6)


def wax(rng, positive=False):
    df = float(rng.choice([0.01, 0.1, 0.5, 0.25, 0.005, 1.0, 10 ** rng.uniform(-2.5, 0.5), 10 ** rng.uniform(-4, 1)]))
    f0 = float(rng.choice([df, 2 * df, 0.03, 0.5 * df] if positive else [0.0, 0.0, df, 3 * df, 0.03]))
    return f0, df


def flim(rng, f, below=True, above=True):
    """a limit: at a sample, between samples, or beyond the ends"""
    df = f[1] - f[0]
    u = rng.random()
    if u < 0.4:
        return float(rng.choice(f))
    if u < 0.8 or not (below or above):
        return float(np.clip(rng.choice(f) + df * rng.choice([0.2, 0.3, -0.3, 0.45, -0.45, 0.6]), f[0], f[-1]))
    if (u < 0.9 and below) or not above:
        return float(max(0.0, f[0] - df * rng.choice([0.0, 0.5, 3.0])))
    return float(f[-1] + df * rng.choice([0.1, 0.4, 0.6, 1.0, 5.0, 100.0]))


class Spectral(Contract):
    def shrink(self, c):
        n = len(c["x"])
        if n > 4:
            for m in (n // 2, n - 1):
                d = dict(c)
                d["x"] = c["x"][:m]
                yield d


class C12(Spectral):
    id = "C12"
    rule = "random spectra of 2..2000 samples, orders -1..2, limits at, between and beyond the samples, omitted or infinite; non-trivial: three or more samples"

    def gen(self, rng, D):
        n = D.long(rng, 2, 2000)
        f0, df = wax(rng)
        f = f0 + df * np.arange(n)
        a, b = flim(rng, f, above=False), flim(rng, f, below=False)
        if a > b:
            a, b = b, a
        if rng.random() < 0.1:
            b = math.inf
        k = str(rng.choice(["both", "both", "both", "none", "min", "max", "params"]))
        return {"ints": ints(rng, f0, df), "f0": f0, "df": df, "x": fl(density(rng, n)), "m": int(rng.choice([-1, 0, 1, 2, -1, 0, 1, 2, -2, 3])), "lim": [a, b], "k": k, "scale": float(rng.choice([2.0, 0.1, 1e4]))}

    def nontrivial(self, c):
        return len(c["x"]) > 2

    def check(self, c):
        f, S, m = wf(c), np.array(c["x"]), c["m"]
        if m < 0 and f[0] == 0 and len(f) < 3:
            raise Skip
        a, b = c["lim"]
        if m < 0 and f[0] == 0 and a == 0:
            pass
        k = c["k"]
        if k == "none":
            e, args = moment(f, S, m), {}
        elif k == "min":
            e, args = moment(f, S, m, a), {"fmin": a}
        elif k == "max":
            e, args = moment(f, S, m, None, b), {"fmax": b}
        else:
            e, args = moment(f, S, m, a, b), {"fmin": a, "fmax": b}
        g = cw.compute_moment(af(c), S, m, **args)
        sc = float(np.abs(f[f > 0] ** m * S[f > 0]).max()) * (f[-1] - f[0]) if m < 0 else float(np.abs(f ** m * S).max()) * (f[-1] - f[0])
        if not close(float(g), e, 1e-8, 1e-12 * sc):
            return "moment %d over %r: %r, expected %r" % (m, args, float(g), e)
        g2 = cw.compute_moment(af(c), S * c["scale"], m, **args)
        if not close(float(g2), float(g) * c["scale"], 1e-8, 1e-12 * sc * c["scale"]):
            return "moment not proportional to the spectrum"
        return None


def in_band(f, a, b):
    m = (f >= (f[0] if a is None else a)) & (f <= (f[-1] if b is None else b))
    if not m.any():
        raise Skip
    return m


def tps_ref(f, S):
    """smoothed peak frequency where the property determines it: ('eq', fp) or ('in', lo, hi) or None"""
    n = len(f)
    M = S.max()
    if M < 1e-10:
        return None
    im = np.flatnonzero(S == M)
    df = f[1] - f[0] if n > 1 else 0
    if n < 2:
        return None
    if n == 2:
        return ("in", f[0], f[1])
    if len(im) == 1:
        i = int(im[0])
        if 0 < i < n - 1:
            den = S[i - 1] - 2 * S[i] + S[i + 1]
            if -den < 1e-5 * M:
                return ("in", f[i] - df / 2, f[i] + df / 2)
            return ("eq", f[i] + 0.5 * df * (S[i - 1] - S[i + 1]) / den)
        return ("in", f[0], f[2]) if i == 0 else ("in", f[-3], f[-1])
    if len(im) == 2 and im[1] - im[0] == 1:
        i = im[0]
        nb = [S[j] for j in (i - 1, i + 2) if 0 <= j < n]
        if max(nb) > M * (1 - 1e-5):
            return None
        return ("eq", f[i] + df / 2)
    return None


def tps_bad(T, f, S):
    r = tps_ref(f, S)
    if r is None:
        return None
    df = f[1] - f[0]
    T = float(np.asarray(T).ravel()[0]) if np.size(T) == 1 else float("nan")
    tol = 1e-6 * df + 1e-13 * (f[-1] / df) ** 2 * df
    if r[0] == "eq":
        if not (r[1] > 1e-9 and abs(1 / T - r[1]) <= tol + 1e-5 * df):
            if r[1] <= 1e-9:
                return None
            return "smoothed peak period %r, expected %r" % (T, 1 / r[1])
    else:
        lo, hi = r[1] - tol - 1e-5 * df, r[2] + tol + 1e-5 * df
        if math.isinf(T) and lo <= 0:
            return None
        if not lo <= 1 / T <= hi:
            return "smoothed peak period %r outside [%r, %r]" % (T, 1 / hi, 1 / lo if lo > 0 else math.inf)
    return None


class C13(Spectral):
    id = "C13"
    rule = "random spectra and bands; every parameter in both interfaces against its definition; non-trivial: three or more samples and energy"

    def gen(self, rng, D):
        n = D.long(rng, 3, 600)
        f0, df = wax(rng)
        f = f0 + df * np.arange(n)
        a, b = sorted([flim(rng, f, above=False, below=False), flim(rng, f, below=False)])
        S = density(rng, n)
        if rng.random() < 0.12:
            S = S * 10.0 ** rng.uniform(-18, -12)
        return {"ints": ints(rng, f0, df), "f0": f0, "df": df, "x": fl(S), "lim": [a, b], "k": str(rng.choice(["both", "both", "none", "min", "max"])), "g": float(rng.choice([9.81, 9.81, 1.0])), "scale": float(rng.choice([4.0, 0.01, 100.0])), "hl": float(rng.choice(f[1:]) + 0.3 * df)}

    def nontrivial(self, c):
        return max(c["x"]) > 0

    def check(self, c):
        f, S = wf(c), np.array(c["x"])
        a, b = c["lim"]
        k = c["k"]
        a = a if k in ("both", "min") else None
        b = b if k in ("both", "max") else None
        kw = {}
        if a is not None:
            kw["fmin"] = a
        if b is not None:
            kw["fmax"] = b
        M = {m: moment(f, S, m, a, b) for m in (-1, 0, 1, 2)}
        if not all(v > 0 for v in M.values()):
            raise Skip
        band = in_band(f, a, b)
        H = 4 * math.sqrt(M[0])
        E = {"Hm0": H, "Tmm10": M[-1] / M[0], "Tm01": M[0] / M[1], "Tm02": math.sqrt(M[0] / M[2])}

        def sp():
            return Spectrum(af(c).copy(), S.copy())

        for nm, e in E.items():
            g = getattr(sp(), "get_" + nm)(**kw)
            if not close(float(g), e, 1e-7):
                return "get_%s(%r) = %r, expected %r" % (nm, kw, float(g), e)
        fb, Sb = f[band], S[band]
        ip = np.flatnonzero(Sb == Sb.max())[-1]
        Tps = None
        if fb[0] > 0 and len(fb) >= 3:
            Tps = sp().get_Tps(**kw)
            m = tps_bad(Tps, fb, Sb)
            if m:
                return m
        if Tps is not None and np.size(Tps) == 1 and float(np.ravel(Tps)[0]) != 0 and Sb.max() >= 1e-10:
            e = 2 * math.pi * H / (c["g"] * float(np.ravel(Tps)[0]) ** 2)
            g = sp().get_s0p(g=c["g"], **kw)
            if not close(float(np.ravel(g)[0]), e, 1e-7):
                return "get_s0p %r, expected %r" % (g, e)
        e = 2 * math.pi * H / (c["g"] * E["Tmm10"] ** 2)
        if not close(float(sp().get_smm10(g=c["g"], **kw)), e, 1e-7):
            return "get_smm10 differs from %r" % e
        P = cw.compute_spectrum_params(af(c), S, **kw)
        P = [float(np.ravel(v)[0]) for v in P]
        if H < 1e-6 * (1 - 1e-6):
            if not all(math.isnan(v) for v in P):
                return "parameters of a spectrum with Hm0 %r are not all nan" % H
        elif H > 1e-6 * (1 + 1e-6):
            ex = [H, 1 / fb[ip] if fb[ip] > 0 else math.inf, None if Tps is None else float(np.ravel(Tps)[0]), E["Tmm10"], E["Tm01"], E["Tm02"]]
            for nm, g, e in zip(("Hm0", "Tp", "Tps", "Tmm10", "Tm01", "Tm02"), P, ex):
                if e is not None and not close(g, e, 1e-7):
                    return "compute_spectrum_params %s %r, expected %r" % (nm, g, e)
        # scaling
        q = c["scale"]
        s2 = Spectrum(af(c), S * q)
        if not close(float(s2.get_Hm0(**kw)), H * math.sqrt(q), 1e-7):
            return "Hm0 does not scale with the square root"
        for nm in ("Tmm10", "Tm01", "Tm02"):
            if not close(float(getattr(Spectrum(af(c), S * q), "get_" + nm)(**kw)), E[nm], 1e-7):
                return "%s changes with the scale" % nm
        # high and low frequency variants
        T = moment(f, S, -1) / moment(f, S, 0)
        for hl in ("HF", "LF"):
            for given in (False, True):
                if hl == "HF":
                    lo, hi = (c["hl"] if given else 0.45 / T), b
                    kk = {"fmin": lo} if given else {}
                    if b is not None:
                        kk["fmax"] = b
                else:
                    lo, hi = a, (c["hl"] if given else 0.45 / T)
                    kk = {"fmax": hi} if given else {}
                    if a is not None:
                        kk["fmin"] = a
                try:
                    L = f[0] if lo is None else lo
                    U = f[-1] if hi is None else hi
                    if U < L:
                        raise Skip
                    m0 = moment(f, S, 0, lo, hi)
                    m_1 = moment(f, S, -1, lo, hi)
                    if not (m0 > 1e-12 * M[0] and m_1 > 0):
                        raise Skip
                except (Skip, IndexError):
                    continue
                g = getattr(sp(), "get_Hm0_" + hl)(**kk)
                if not close(float(g), 4 * math.sqrt(m0), 1e-6):
                    return "get_Hm0_%s(%r) = %r, expected %r" % (hl, kk, float(g), 4 * math.sqrt(m0))
                g = getattr(sp(), "get_Tmm10_" + hl)(**kk)
                if not close(float(g), m_1 / m0, 1e-6):
                    return "get_Tmm10_%s(%r) = %r, expected %r" % (hl, kk, float(g), m_1 / m0)
                if hl == "HF":
                    g = sp().get_smm10_HF(g=c["g"], **kk)
                    e = 2 * math.pi * 4 * math.sqrt(m0) / (c["g"] * (m_1 / m0) ** 2)
                    if not close(float(g), e, 1e-6):
                        return "get_smm10_HF(%r) = %r, expected %r" % (kk, float(g), e)
        return None


class C14(Spectral):
    id = "C14"
    rule = "random non-negative spectra on positive axes, bands of two or more samples; non-trivial: three or more samples in the band"

    def gen(self, rng, D):
        n = D.long(rng, 2, 1000)
        f0, df = wax(rng, True)
        i = int(rng.integers(0, n - 1))
        j = int(rng.integers(i + 1, n))
        if rng.random() < 0.3:
            i, j = 0, n - 1
        return {"f0": f0, "df": df, "x": fl(density(rng, n)), "i": i, "j": j, "sh": [float(v) for v in rng.choice([0.0, 0.0, 0.3, -0.3], size=2)], "obj": bool(rng.random() < 0.5)}

    def nontrivial(self, c):
        return c["j"] - c["i"] > 1

    def shrink(self, c):
        return iter(())

    def check(self, c):
        f, S = wf(c), np.array(c["x"])
        i, j = c["i"], c["j"]
        lo = min(max(f[i] + c["sh"][0] * c["df"], f[0]), f[-1])
        hi = min(max(f[j] + c["sh"][1] * c["df"], f[0]), f[-1])
        ib = np.flatnonzero((f >= lo) & (f <= hi))
        if S[i:j + 1].max() <= 1e-150 or len(ib) < 2 or S[ib].max() <= 1e-150:  # below that floats underflow
            raise Skip
        m = [cw.compute_moment(f, S, q, lo, hi) for q in (-1, 0, 1, 2)]
        if min(m) < 0:
            return "negative moment: %r" % m
        if c["obj"]:
            s = Spectrum(f, S)
            T = [float(s.get_Tmm10(lo, hi)), float(s.get_Tm01(lo, hi)), float(s.get_Tm02(lo, hi))]
        else:
            P = cw.compute_spectrum_params(f, S, lo, hi)
            T = [float(P[3]), float(P[4]), float(P[5])]
            if math.isnan(T[0]):
                raise Skip
        r = 1e-7
        if not (T[2] <= T[1] * (1 + r) and T[1] <= T[0] * (1 + r)):
            return "periods not ordered: Tm-1,0 %r Tm01 %r Tm02 %r" % tuple(T)
        if not (T[0] <= (1 + r) / f[i] and T[2] >= (1 - r) / f[j]):
            return "periods %r outside [%r, %r]" % (T, 1 / f[j], 1 / f[i])
        return None


PAR = ["Hm0", "Hm0_HF", "Hm0_LF", "Tps", "Tp", "Tmm10", "Tmm10_HF", "Tmm10_LF", "Tm01", "Tm02", "s0p", "smm10", "smm10_HF"]


class C15(Spectral):
    id = "C15"
    rule = "random sequences of 1..10 requests with random limits on one or two spectrum objects against fresh objects; non-trivial: two or more requests"

    def gen(self, rng, D):
        n = D.long(rng, 4, 120, hi=4000)
        f0, df = wax(rng, True)
        f = f0 + df * np.arange(n)
        L = [float(rng.choice(f)) for _ in range(3)]
        rq = []
        for _ in range(int(rng.integers(1, 11))):
            k = str(rng.choice(PAR))
            a, b = sorted([float(rng.choice(L + [f[0]])), float(rng.choice(L + [f[-1]]))])
            if rng.random() < 0.3:
                a, b = sorted([a, flim(rng, f, below=False)])
            a = a if rng.random() < 0.5 else -1.0
            b = b if rng.random() < 0.5 else -1.0
            rq.append([k, a, b, float(rng.choice([9.81, 1.0]))])
        if rng.random() < 0.4:  # return to an earlier request
            rq.append(list(rq[0]))
        return {"f0": f0, "df": df, "x": fl(density(rng, n) + 1e-3), "rq": rq, "two": bool(rng.random() < 0.3), "extra": bool(rng.random() < 0.1), "plot": [int(rng.integers(0, 12)), int(rng.integers(0, 3))] if rng.random() < 0.04 else None}

    def nontrivial(self, c):
        return len(c["rq"]) > 1

    def shrink(self, c):
        for i in range(len(c["rq"])):
            d = dict(c)
            d["rq"] = c["rq"][:i] + c["rq"][i + 1:]
            yield d

    def ask(self, o, r):
        kw = {"g": r[3]} if r[0] in ("s0p", "smm10", "smm10_HF") else {}
        try:
            v = getattr(o, "get_" + r[0])(r[1], r[2], **kw)
        except Exception as e:  # noqa
            return "raised " + type(e).__name__
        return float(np.ravel(v)[0]) if np.size(v) == 1 else fl(v)

    def check(self, c):
        if not c["rq"]:
            raise Skip
        f, S = wf(c), np.array(c["x"])
        o = Spectrum(f.copy(), S.copy())
        p = Spectrum(f + 0.5 * c["df"], S[::-1] * 3) if c["two"] else None
        for k, r in enumerate(c["rq"]):
            if c.get("plot") and k == c["plot"][0] % len(c["rq"]):
                import matplotlib.pyplot as plt
                try:
                    o.plot(**({}, {"plot_periods": False}, {"xlim": 1.0})[c["plot"][1]])
                except Exception:  # noqa
                    pass
                plt.close("all")
            if p is not None:
                self.ask(p, r)
            if c["extra"] and len(S) <= 300:
                o.create_series(0, 10 * c["df"] ** -1, 0.2 / f[-1])
            g = self.ask(o, r)
            e = self.ask(Spectrum(f.copy(), S.copy()), r)
            if isinstance(g, str) or isinstance(e, str):
                if g != e:
                    return "get_%s%r: %s after earlier requests, %s on a fresh object" % (r[0], r[1:3], g, e)
            elif not close(g, e, 1e-12):
                return "get_%s%r = %r after earlier requests, %r on a fresh object" % (r[0], r[1:3], g, e)
            if not (close(o.f, f, 0) and close(o.sVarDens, S, 0)):
                return "get_%s changed the spectrum" % r[0]
        return None


def jshape(f, fp, gam):
    out = np.zeros(len(f))
    for i, v in enumerate(f):
        if v > 3e-16:
            nu = v / fp
            s = 0.07 if v < fp else 0.09
            out[i] = v ** -5.0 * math.exp(-1.25 * nu ** -4.0 if nu > 1e-3 else -1e9) * gam ** math.exp(-((nu - 1) ** 2) / (2 * s * s))
    return out


class C16(Contract):
    id = "C16"
    rule = "random axes (also with zero and negative frequencies), peaks on and off the samples, heights, factors below and above 1; non-trivial: five or more samples"

    def gen(self, rng, D):
        n = D.long(rng, 3, 1500)
        df = float(rng.choice([0.01, 0.005, 0.1, 0.5, 1.0, 10 ** rng.uniform(-2.5, 0)]))
        f0 = float(rng.choice([0.0, 0.0, df, 3 * df, -2 * df, 0.03]))
        fend = f0 + df * (n - 1)
        fp = float(max(0.2 * df, abs(rng.choice([f0 + df * rng.integers(0, n), f0 + df * n * rng.random(), 0.6 * fend]))))
        gam = float(rng.choice([3.3, 1.0, 2.0, 5.0, 0.5, 7.0, 1 + 3 * rng.random()]))
        return {"ints": ints(rng, f0, df), "f0": f0, "df": df, "n": n, "fp": fp, "hm0": float(rng.choice([1.0, 1.5, 0.01, 10.0, 0.1])), "g": gam, "l": int(rng.choice([0, 0, 1])), "how": str(rng.choice(["j", "j", "j", "pm", "obj", "pmobj"])), "dg": bool(rng.random() < 0.2)}

    def nontrivial(self, c):
        return c["n"] > 4

    def shrink(self, c):
        return iter(())

    def check(self, c):
        n, fp, h = c["n"], c["fp"], c["hm0"]
        f = c["f0"] + c["df"] * np.arange(n)
        if np.any((np.abs(f) < 1e-12) & (f != 0)) or np.any((np.abs(f - fp) < 1e-9 * fp) & (f != fp)):
            raise Skip
        how = c["how"]
        gam = c["g"]
        kw = {"l_fmax": c["l"]}
        if how in ("pm", "pmobj"):
            gam = 1.0
            if c["dg"]:
                kw["gammaPeak"] = 1.0
        elif c["dg"]:
            gam = 3.3
        else:
            kw["gammaPeak"] = gam
        fn = {"j": cw.create_spectrum_jonswap, "obj": cw.create_spectrum_object_jonswap, "pm": cw.create_spectrum_piersonmoskowitz, "pmobj": cw.create_spectrum_object_piersonmoskowitz}[how]
        sh = jshape(f, fp, gam)
        i0 = int(np.argmax(f > 3e-16))
        if sh.max() <= 1e-200 or (f[-1] / fp) < 0.35:
            raise Skip
        S = fn(af(c), fp, h, **kw)
        if how.endswith("obj"):
            if not close(S.f, f, 0):
                return "axis of the object differs"
            S = S.sVarDens
        S = np.asarray(S)
        if len(S) != n:
            return "%d densities for %d frequencies" % (len(S), n)
        if np.any(S[f <= 0] != 0):
            return "density at a non-positive frequency"
        if not np.all(S >= 0):
            return "negative or undefined density"
        j = int(np.argmax(sh))
        q = S[j] / sh[j]
        if not close(S, sh * q, 1e-8, 1e-290 * q):
            i = int(np.argmax(np.abs(S - sh * q)))
            return "shape at f=%r: %r, expected %r" % (f[i], S[i], sh[i] * q)
        m0 = moment(f, S, 0, None, math.inf if c["l"] else None)
        if not close(4 * math.sqrt(m0), h, 1e-8):
            return "Hm0 of the spectrum %r, requested %r" % (4 * math.sqrt(m0), h)
        if gam >= 1:
            lo = S[f <= fp]
            hi = S[f >= fp]
            if np.any(np.diff(lo) < -1e-10 * S.max()) or np.any(np.diff(hi) > 1e-10 * S.max()):
                return "density does not rise to the peak and fall beyond it"
        return None


class C17(Spectral):
    id = "C17"
    rule = "random spectra with unique, tied, edge and neighbouring maxima, random bands; non-trivial: three or more samples in the band"

    def gen(self, rng, D):
        n = D.long(rng, 2, 400)
        f0, df = wax(rng, True)
        S = density(rng, n)
        k = str(rng.choice(["as", "pair", "edge0", "edge1", "ties", "pairedge", "uniq"]))
        M = S.max() * 1.5 + 0.01
        i = int(rng.integers(0, n))
        if k == "uniq":
            S[i] = M
        if k == "pair" and n > 2:
            i = min(i, n - 2)
            S[i] = S[i + 1] = M
        if k == "pairedge":
            if rng.random() < 0.5:
                S[0] = S[1] = M
            else:
                S[-1] = S[-2] = M
        if k == "edge0":
            S[0] = M
            if n > 2 and rng.random() < 0.5:
                S[1], S[2] = M * 0.9, M * rng.uniform(0, 1)
        if k == "edge1":
            S[-1] = M
            if n > 2 and rng.random() < 0.5:
                S[-2], S[-3] = M * 0.9, M * rng.uniform(0, 1)
        if k == "ties":
            S[rng.choice(n, size=min(n, int(rng.integers(1, 4))), replace=False)] = M
        i, j = sorted(int(v) for v in rng.integers(0, n, size=2))
        if rng.random() < 0.4:
            i, j = 0, n - 1
        return {"ints": ints(rng, f0, df), "f0": f0, "df": df, "x": fl(S), "i": i, "j": j, "sh": [float(v) for v in rng.choice([0.0, 0.0, 0.3], size=2)], "how": str(rng.choice(["obj", "obj", "par", "fn"]))}

    def nontrivial(self, c):
        return c["j"] - c["i"] > 1

    def shrink(self, c):
        return iter(())

    def check(self, c):
        f, S = wf(c), np.array(c["x"])
        a, b = f[c["i"]] - c["sh"][0] * c["df"], f[c["j"]] + c["sh"][1] * c["df"]
        a = max(a, 0.0)
        m = (f >= a) & (f <= b)
        fb, Sb = f[m], S[m]
        fp = fb[np.flatnonzero(Sb == Sb.max())[-1]]
        if c["how"] == "fn":
            T = cw.compute_tps(af(c)[m], Sb)
            Tp = None
        elif c["how"] == "obj":
            s = Spectrum(af(c), S)
            Tp = s.get_Tp(a, b)
            T = s.get_Tps(a, b)
        else:
            if len(fb) < 2:
                raise Skip
            P = cw.compute_spectrum_params(af(c), S, a, b)
            if math.isnan(float(P[0])):
                raise Skip
            Tp, T = P[1], P[2]
        if Tp is not None and not close(float(Tp), 1 / fp, 1e-9):
            return "peak period %r, expected %r" % (float(Tp), 1 / fp)
        if len(fb) >= 2:
            r = tps_bad(T, fb, Sb)
            if r:
                return r
        return None


class C18(Contract):
    id = "C18"
    rule = "frequencies and depths with w^2 h/g from 1e-30 to 1e8, zero, scalars and arrays, infinite and negative depth; non-trivial: finite depth"

    def gen(self, rng, D):
        n = 0 if rng.random() < 0.2 else D.long(rng, 1, 300)
        h = float(rng.choice([1.0, 10.0, 20.0, 0.1, 1000.0, 10 ** rng.uniform(-4, 5), D.val(rng, 1e-6, 1e6)]))
        k = str(rng.choice(["fin", "fin", "fin", "fin", "inf", "neg"]))
        g = float(rng.choice([9.81, 9.81, 9.81, 9.80665, 1.0, 3.7]))
        y = 10 ** rng.uniform(-30, 8, size=max(n, 1)) if rng.random() < 0.3 else 10 ** rng.uniform(-4, 2.5, size=max(n, 1)) if rng.random() < 0.6 else 10 ** rng.uniform(-9, -7, size=max(n, 1))
        w = np.sqrt(y * g / h)
        if n > 1 and rng.random() < 0.4:
            w[int(rng.integers(0, n))] = 0.0
        if n and rng.random() < 0.2:
            w = np.linspace(0, 10, n)
        return {"x": fl(w), "sc": n == 0, "h": h, "k": k, "g": g, "dg": bool(g == 9.81 and rng.random() < 0.5)}

    def nontrivial(self, c):
        return c["k"] == "fin" and max(c["x"]) > 0

    def check(self, c):
        w = np.array(c["x"])
        h, g = c["h"], c["g"]
        arg = float(w[0]) if c["sc"] else w.copy()
        H = h if c["k"] == "fin" else math.inf if c["k"] == "inf" else -h
        k = cd.disper(arg, H) if c["dg"] else cd.disper(arg, H, g)
        k = np.asarray(k).ravel()
        if len(k) != len(w):
            return "%d wave numbers for %d frequencies" % (len(k), len(w))
        if np.any(k[w == 0] != 0):
            return "wave number %r at zero frequency" % k[w == 0][0]
        p = w > 0
        if not np.all(np.isfinite(k)) or np.any(k[p] <= 0):
            return "wave number not positive and finite: %r" % fl(k[p])[:4]
        if c["k"] == "fin":
            r = np.abs(g * k[p] * np.tanh(k[p] * h) / w[p] ** 2 - 1)
        elif c["k"] == "inf":
            r = np.abs(k[p] * g / w[p] ** 2 - 1)
        else:
            r = np.abs(k[p] * math.sqrt(g * h) / w[p] - 1)
        if p.any() and not r.max() <= 1e-9 * (1 + 1e-3) + 1e-12:
            i = int(np.argmax(r))
            return "w=%r h=%r: relative residual %r" % (w[p][i], H, r[i])
        return None


class C19(Contract):
    id = "C19"
    rule = "incident and reflected waves on random gauge layouts, weights, depths, record lengths; non-trivial: at least one resolved frequency"

    def gen(self, rng, D):
        n = int(D.long(rng, 8, 120, hi=4000))
        dt = float(rng.choice([0.5, 0.25, 0.1, 1.0]))
        ng = int(rng.integers(2, 7))
        h = float(rng.choice([0.5, 1.0, 10.0, 0.1, 3.0]))
        hk = str(rng.choice(["fin", "fin", "fin", "inf", "neg"]))
        H = h if hk == "fin" else math.inf if hk == "inf" else -h
        wn = 2 * math.pi * (np.arange(1, (n - 1) // 2 + 1)) / (n * dt)
        L = 2 * math.pi / max(1e-9, float(np.median(wref(wn, H))))
        x0 = float(rng.choice([0.0, 5.0, -2.0, 100.0]))
        xl = x0 + np.concatenate([[0], np.cumsum(rng.uniform(0.05, 0.4, size=ng - 1))]) * L
        w = np.ones(ng) if rng.random() < 0.5 else rng.uniform(0.2, 1, size=ng)
        if ng > 2 and rng.random() < 0.3:
            w[int(rng.integers(0, ng))] = 0.0
        nw = len(wn)
        A = (rng.normal(size=nw) + 1j * rng.normal(size=nw)) * (rng.random(nw) < 0.5)
        B = (rng.normal(size=nw) + 1j * rng.normal(size=nw)) * (rng.random(nw) < 0.5)
        if rng.random() < 0.3:
            B = 0 * B
        c = {"n": n, "dt": dt, "t0": float(rng.choice([0.0, 3.0])), "h": H, "xl": fl(xl), "w": fl(w), "A": [fl(A.real), fl(A.imag)], "B": [fl(B.real), fl(B.imag)], "lim": float(rng.choice([0.125, 0.125, 0.05, 0.5])), "dl": bool(rng.random() < 0.3), "ser": bool(rng.random() < 0.3), "mean": float(rng.choice([0.0, 0.0, 0.7])), "what": str(rng.choice(["ok"] * 6 + ["lin", "noise", "e_order", "e_eq", "e_w", "e_wneg", "e_nloc", "e_nw", "e_nt", "e_sum", "e_one"])), "seed": int(rng.integers(0, 10 ** 6))}
        return c

    def nontrivial(self, c):
        return c["what"] == "ok"

    def shrink(self, c):
        return iter(())

    def check(self, c):
        n, dt, H = c["n"], c["dt"], c["h"]
        xl, w = np.array(c["xl"]), np.array(c["w"])
        if w.sum() <= 1.0001:
            raise Skip
        t = c["t0"] + dt * np.arange(n)
        j = np.arange(n)
        nw = len(c["A"][0])
        A = np.array(c["A"][0]) + 1j * np.array(c["A"][1])
        B = np.array(c["B"][0]) + 1j * np.array(c["B"][1])
        om = 2 * math.pi * np.arange(1, nw + 1) / (n * dt)
        k = wref(om, H)
        d = xl - xl[0]
        X = np.zeros((n, len(xl)))
        ph = np.exp(1j * np.outer(j, 2 * math.pi * np.arange(1, nw + 1) / n))
        for g in range(len(xl)):
            X[:, g] = np.real(ph @ (A * np.exp(-1j * k * d[g]) + B * np.exp(1j * k * d[g]))) + c["mean"]
        lim = 0.125 if c["dl"] else c["lim"]
        kw = {} if c["dl"] else {"detLim": lim}
        what = c["what"]

        def run(X, xl=xl, w=w, t=t):
            if c["ser"] and len(t) == len(X) and what in ("ok", "lin", "noise"):
                r = cwd.decompose_linear_ZS_series([Series(t, X[:, g].copy()) for g in range(X.shape[1])], H, xl, w, **kw)
                if not (close(r[0].time, t, 1e-12) and close(r[1].time, t, 1e-12)):
                    raise ValueError("time axis")
                return r[0].xTime, r[1].xTime
            return cwd.decompose_linear_ZS(t, X, H, xl, w, **kw)

        if what.startswith("e_"):
            a = dict(X=X, xl=xl, w=w, t=t)
            if what == "e_order":
                q, i = xl.copy(), c["seed"] % (len(xl) - 1)
                q[i], q[i + 1] = q[i + 1], q[i]
                a["xl"] = q
            elif what == "e_eq":
                q, i = xl.copy(), c["seed"] % (len(xl) - 1)
                q[i + 1] = q[i]
                a["xl"] = q
            elif what == "e_w":
                q = np.ones(len(w))
                q[c["seed"] % len(w)] = 1.0 + 10.0 ** -(c["seed"] % 6)
                a["w"] = q
            elif what == "e_wneg":
                q = np.ones(len(w))
                q[c["seed"] % len(w)] = -(10.0 ** -(c["seed"] % 6))
                if q.sum() <= 1.01:
                    raise Skip
                a["w"] = q
            elif what == "e_nloc":
                a["xl"] = np.append(xl, xl[-1] + 1)
            elif what == "e_nw":
                a["w"] = np.append(w, 1.0) if c["seed"] % 2 or len(w) < 3 else np.ones(len(w) - 1)
            elif what == "e_nt":
                a["t"] = np.append(t, t[-1] + dt) if c["seed"] % 2 else t[:-1]
            elif what == "e_sum":
                a["w"] = np.full(len(w), (0.99, 0.5, 0.01)[c["seed"] % 3] / len(w)) if c["seed"] % 2 else np.array([0.5, 0.5] + [0.0] * (len(w) - 2))
            elif what == "e_one":
                a["X"], a["xl"], a["w"] = X[:, :1], xl[:1], w[:1]
            if not raises(lambda: run(**a)):
                return "unusable input accepted: %s" % what
            return None
        rng = np.random.default_rng(c["seed"])
        a11 = np.array([np.sum(w * np.exp(-2j * kk * d)) for kk in k])
        det = np.abs(a11) ** 2 - w.sum() ** 2
        sdet = np.abs(0.25 * det)
        if np.any(np.abs(sdet - lim) < 1e-6):
            raise Skip
        ok = sdet > lim
        cond = w.sum() ** 2 / max(1e-9, np.min(np.abs(det[ok]))) if ok.any() else 1
        if what == "noise":
            X = X + rng.normal(size=X.shape)
        xi, xr = run(X)
        xi, xr = np.asarray(xi), np.asarray(xr)
        if len(xi) != n or len(xr) != n:
            return "length %d for %d samples" % (len(xi), n)
        sc = (np.abs(A).sum() + np.abs(B).sum() + abs(c["mean"]) + (4 * math.sqrt(n) if what == "noise" else 0)) * max(1, cond) + 1e-12
        XI, XR = np.fft.fft(xi)[1: nw + 1] / n * 2, np.fft.fft(xr)[1: nw + 1] / n * 2
        if what == "lin":
            Y = rng.normal(size=X.shape)
            yi, yr = run(Y)
            zi, zr = run(X * 1.5 - Y)
            s2 = (np.abs(X).sum() + np.abs(Y).sum()) * max(1, cond)
            if not (close(zi, 1.5 * xi - yi, 0, 1e-9 * s2) and close(zr, 1.5 * xr - yr, 0, 1e-9 * s2)):
                return "decomposition is not linear in the signals"
        if np.any(np.abs(XI[~ok]) > 1e-8 * sc) or np.any(np.abs(XR[~ok]) > 1e-8 * sc):
            return "output at a frequency with a small determinant"
        if abs(xi.mean()) > 1e-8 * sc or abs(xr.mean()) > 1e-8 * sc:
            return "output at zero frequency"
        if what == "noise":
            return None
        for nm, G, E in (("incident", XI, A), ("reflected", XR, B)):
            e = np.abs(G - E) * ok
            if np.any(e > 1e-7 * sc):
                i = int(np.argmax(e))
                return "%s wave at frequency %d: %r, expected %r" % (nm, i + 1, complex(G[i]), complex(E[i]))
        return None


def wref(w, h, g=9.81):
    """wave numbers by Newton's method on w^2 = g k tanh(k h)"""
    w = np.asarray(w, float)
    if math.isinf(h):
        return w ** 2 / g
    if h < 0:
        return w / math.sqrt(g * -h)
    y = w ** 2 * h / g
    q = np.maximum(y, np.sqrt(y))
    for _ in range(60):
        th = np.tanh(q)
        q = q - (q * th - y) / (th + q * (1 - th * th))
    return q / h


class Timeout(Exception):
    pass


class C20(Contract):
    id = "C20"
    rule = "random wave heights, depths from shallow to deep, slopes, numbers of waves, tolerances; non-trivial: three points returned"

    def gen(self, rng, D):
        h = float(10 ** rng.uniform(-2, 1.3))
        r = float(10 ** rng.uniform(-1.2, 0.7))
        n = int(rng.choice([2, 3, 10, 100, 1000, 50, 100000, 7, 500]))
        return {"h": h, "d": h * r, "n": n, "s": float(rng.choice([250.0, 100.0, 50.0, 20.0, 30.0, 300.0, 10.0])), "tol": float(rng.choice([0, 0, 0, 1e-3, 1e-7])), "ds": bool(rng.random() < 0.1)}

    def nontrivial(self, c):
        return c["d"] < c["h"]

    def check(self, c):
        import scipy.special as sp

        h, d, n, s = c["h"], c["d"], c["n"], c["s"]
        kw = {}
        if c["tol"]:
            kw["tolerance"] = c["tol"]
        tol = c["tol"] or 1e-5
        if c["ds"]:
            s = 250.0
        else:
            kw["cota_slope"] = s
        Htr = (0.35 + 5.8 / s) * d
        m0 = (h / 4) ** 2
        rms = (2.69 + 3.24 * math.sqrt(m0) / d) * math.sqrt(m0)
        hd = _sig.signal(_sig.SIGALRM, lambda *a: (_ for _ in ()).throw(Timeout()))
        _sig.alarm(20)
        try:
            H, P = cw.compute_BattjesGroenendijk_wave_height_distribution(h, n, d, **kw)
        except Timeout:
            raise Skip
        finally:
            _sig.alarm(0)
            _sig.signal(_sig.SIGALRM, hd)
        H, P = np.asarray(H), np.asarray(P)
        if abs(Htr / rms - 2.75) < 1e-9:
            raise Skip
        if Htr / rms > 2.75:
            return None if H.size == 0 and P.size == 0 else "results not empty for a Rayleigh distribution"
        if H.shape != (3,) or P.shape != (3,):
            return "shapes %r %r" % (H.shape, P.shape)
        if H[0] != 0 or P[0] != 1:
            return "first point (%r, %r)" % (H[0], P[0])
        if not close(H[1], Htr, 1e-9):
            return "transition height %r, expected %r" % (H[1], Htr)
        if not close(P[2], 1 / n, 1e-12):
            return "last probability %r, expected 1/%d" % (P[2], n)
        if not (np.all(P > 0) and np.all(P <= 1)):
            return "probabilities %r" % fl(P)
        L = -math.log(P[1])
        if L < 1e-7:
            raise Skip
        H1 = Htr / math.sqrt(L)
        t, a = Htr / rms, H1 / rms
        H2 = t / (t / a) ** (2 / 3.6)
        X = (t / a) ** 2
        est = a * a * sp.gammainc(2.0, X) * sp.gamma(2.0) + H2 * H2 * sp.gamma(2 / 3.6 + 1) * (1 - sp.gammainc(2 / 3.6 + 1, X))
        if not abs(est - 1) <= tol * 1.001 + 1e-8 + 1e-14 / L:
            return "H1=%r normalises the distribution to %r, not 1" % (H1, est)
        x1, x2 = H1 * math.sqrt(math.log(n)), H2 * rms * math.log(n) ** (1 / 3.6)
        x = x1 if x1 < Htr else x2
        x = min(x, h * math.sqrt(math.log(n) / 2))
        if not close(H[2], x, 1e-7 + 1e-13 / L):
            return "height exceeded with probability 1/%d: %r, expected %r" % (n, H[2], x)
        return None


class C26(Spectral):
    id = "C26"
    rule = "random spectra of 2..400 samples, one or several peaks, scaled; non-trivial: the band of tpd has three or more samples"

    def gen(self, rng, D):
        n = D.long(rng, 2, 400)
        f0, df = wax(rng, rng.random() < 0.7)
        S = density(rng, n)
        u = rng.random()
        if u < 0.3:
            i = int(rng.integers(0, n))
            S = S * rng.choice([0.0, 0.1, 0.6]) + S.max() * np.exp(-(((np.arange(n) - i) / rng.uniform(1, 1 + n / 4)) ** 2))
        elif u < 0.5:
            S[rng.choice(n, size=min(n, int(rng.integers(1, 4))), replace=False)] = S.max() * rng.uniform(0.6, 1.3)
        return {"f0": f0, "df": df, "x": fl(S), "k": float(rng.choice([2.0, 0.5, 1e-3, 10.0, 1e-6, 3.7])), "col": str(rng.choice(["a", "a", "a", "c", "l"]))}

    def nontrivial(self, c):
        S = np.array(c["x"])
        i = np.flatnonzero(S >= 0.64 * S.max())
        return len(i) > 0 and i[-1] - i[0] > 1

    def check(self, c):
        f, S = wf(c), np.array(c["x"])
        M = S.max()
        if not M > 1e-30 or np.any((np.abs(S / M - 0.64) < 1e-9)):
            raise Skip
        i = np.flatnonzero(S >= 0.64 * M)
        a, b = int(i[0]), int(i[-1])
        if a == b:
            raise Skip
        m0, m1 = moment(f[a:b + 1], S[a:b + 1], 0), moment(f[a:b + 1], S[a:b + 1], 1)
        if not m1 > 1e-12 * M * c["df"] * f[b]:
            raise Skip
        A = {"a": lambda v: v, "c": lambda v: v[:, None], "l": lambda v: v.tolist()}[c["col"]]
        T = float(cw.tpd(A(f), A(S)))
        if not close(T, m0 / m1, 1e-8):
            return "tpd %r, expected %r" % (T, m0 / m1)
        if f[a] > 0 and not (1 / f[b] * (1 - 1e-9) <= T <= 1 / f[a] * (1 + 1e-9)):
            return "tpd %r outside its band" % T
        U = float(cw.tpd(A(f), A(S * c["k"])))
        if not close(U, T, 1e-9):
            return "tpd %r for densities times %r, %r before" % (U, c["k"], T)
        return None
