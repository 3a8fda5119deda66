"""Executable contracts of input handling: C21, C22"""
import math

import numpy as np
from base import Contract, Skip, close, fl, raises, signal, taxis
from props_time import heights

import deltares_wave_toolbox.cores.core_dispersion as cd
import deltares_wave_toolbox.cores.core_engine as ce
import deltares_wave_toolbox.cores.core_spectral as cs
import deltares_wave_toolbox.cores.core_time as ct
import deltares_wave_toolbox.cores.core_wave_decomposition as cwd
import deltares_wave_toolbox.cores.core_wavefunctions as cw
from deltares_wave_toolbox.series import Series, WaveHeights
from deltares_wave_toolbox.spectrum import Spectrum

ANALYSES = {
    "time2freq": lambda a, v: cs.time2freq(a, v),
    "time2freq_nyquist": lambda a, v: cs.time2freq_nyquist(a, v),
    "compute_spectrum_time_series": lambda a, v: cs.compute_spectrum_time_series(a, v),
    "compute_spectrum_time_series_df": lambda a, v: cs.compute_spectrum_time_series(a, v, 0.3),
    "compute_spectrum_freq_series": lambda a, v: cs.compute_spectrum_freq_series(a, v, 2 * len(v)),
    "bandpassfilter": lambda a, v: cs.bandpassfilter(a, v, 0.01, 0.2),
    "compute_moment": lambda a, v: cw.compute_moment(a, v, 0),
    "compute_moment_m1": lambda a, v: cw.compute_moment(a, v, -1),
    "compute_moment_lim": lambda a, v: cw.compute_moment(a, v, 1, float(np.ravel(a)[0]), float(np.ravel(a)[-1])),
    "compute_spectrum_params": lambda a, v: cw.compute_spectrum_params(a, v),
    "Spectrum": lambda a, v: Spectrum(a, v),
}
WAVES = {
    "determine_zero_crossing": lambda a, v: ct.determine_zero_crossing(a, v),
    "determine_zero_crossing_up": lambda a, v: ct.determine_zero_crossing(a, v, "up"),
    "determine_params_individual_waves": lambda a, v: ct.determine_params_individual_waves(np.array([a[0], a[1]]), a, v),
    "sort_wave_params": lambda a, v: ct.sort_wave_params(np.sort(a)[::-1], v),
    "highest_waves_params": lambda a, v: ct.highest_waves_params(np.sort(a)[::-1], v, 0.5),
}


class C21(Contract):
    id = "C21"
    rule = "axes with one irregular, repeated or reversed step of any size at any position, mismatched lengths, several columns, and uniform axes; non-trivial: an unusable axis"

    def gen(self, rng, D):
        n = D.long(rng, 2, 400)
        k = str(rng.choice(["dec", "flat", "step", "step", "step", "step", "rep", "len", "cols_a", "cols_v", "cols_2", "wlen", "ok", "ok", "fn"]))
        dt = float(rng.choice([1.0, 0.1, 0.5, 0.05, 0.01, 2.0, 10 ** rng.uniform(-2, 1)]))
        t0 = float(rng.choice([0.0, 0.1, 1.0, 5.0, dt]))
        amt = float(rng.choice([-1, 1])) * float(rng.choice([1.05e-9, 2e-9, 1e-8, 1e-6, 1e-4, 0.01, 0.1, 0.5, 1.0, 3.0]))
        fns = sorted(WAVES) if k == "wlen" else sorted(ANALYSES)
        return {"n": n, "k": k, "t0": t0, "dt": dt, "j": int(rng.integers(1, n)), "amt": amt, "fn": str(rng.choice(fns)), "d": int(rng.choice([1, -1, 2, -2, n])), "rel": bool(rng.random() < 0.5), "lst": bool(rng.random() < 0.2)}

    def nontrivial(self, c):
        return c["k"] not in ("ok",)

    def shrink(self, c):
        for n in (c["n"] // 2, c["n"] - 1):
            if n >= 3:
                d = dict(c)
                d["n"] = n
                d["j"] = min(c["j"], n - 1)
                yield d

    def check(self, c):
        n, k, dt, fn = c["n"], c["k"], c["dt"], c["fn"]
        a = c["t0"] + dt * np.arange(n)
        v = np.cos(1.3 * np.arange(n)) ** 2 + 0.1
        f = (WAVES if k == "wlen" else ANALYSES)[fn]
        if k == "ok":
            if "m1" in fn and n < 3:
                raise Skip
            try:
                f(a, v)
            except Exception as e:
                return "%s rejects a uniform axis (n=%d, t0=%r, dt=%r): %r" % (fn, n, c["t0"], dt, e)
            return None if ce.monotonic_increasing_constant_step(a) else "uniform axis not recognised"
        if k == "dec":
            b, w = a[::-1].copy(), v
        elif k == "flat":
            b, w = np.full(n, c["t0"]), v
        elif k in ("step", "fn"):
            if n < 3:
                raise Skip
            st = np.full(n - 1, dt)
            st[c["j"] - 1] += c["amt"] * (dt if c["rel"] and abs(c["amt"]) * dt >= 1.02e-9 else 1)
            b, w = c["t0"] + np.concatenate([[0], np.cumsum(st)]), v
            q = np.diff(b)
            if np.max(np.abs(q - q[0])) < 1e-9 and np.min(q) > 0:
                raise Skip
        elif k == "rep":
            b = a.copy()
            b[c["j"]:] -= b[c["j"]] - b[c["j"] - 1]
            b[c["j"]] = b[c["j"] - 1]
            w = v
        elif k in ("len", "wlen"):
            m = n + c["d"]
            if m < 1 or n < 3 or m == n:
                raise Skip
            b, w = a, np.cos(1.3 * np.arange(m)) ** 2 + 0.1
        else:
            if fn == "Spectrum":
                raise Skip
            b = np.stack([a, a + dt], axis=1) if k in ("cols_a", "cols_2") else a
            w = np.stack([v, v], axis=1) if k in ("cols_v", "cols_2") else v
        if k == "fn":
            if ce.monotonic_increasing_constant_step(b):
                return "axis with an irregular step %d called uniform" % c["j"]
            return None
        if c["lst"] and b.ndim == 1 and w.ndim == 1 and k != "wlen":
            b, w = b.tolist(), w.tolist()
        if not raises(lambda: f(b, w)):
            return "%s accepts an unusable axis or mismatched values (%s)" % (fn, k)
        return None


def F_spec(name, fn, axis="f", nargs=2):
    return (name, fn, axis)


class Modified(Exception):
    pass


def guard(f, *args):
    """calls f and raises Modified if it changes one of its array or list arguments"""
    before = [np.array(x).copy() for x in args]
    r = f(*args)
    for x, b in zip(args, before):
        if np.shape(x) != b.shape or not np.array_equal(np.array(x), b, equal_nan=True):
            raise Modified
    return r


def guard_series(t, xs, h, xl, wl):
    ser = [Series(t, x) for x in xs]
    before = [np.array(s.xTime) for s in ser]
    b2 = xl.copy(), wl.copy()
    r = cwd.decompose_linear_ZS_series(ser, h, xl, wl)
    if not all(np.array_equal(s.xTime, b) for s, b in zip(ser, before)) or not (np.array_equal(xl, b2[0]) and np.array_equal(wl, b2[1])):
        raise Modified
    return r


COMPLEX = ("freq2time", "unfold_spectrum", "unfold_spectrum_even", "compute_spectrum_freq_series", "compute_spectrum_freq_series_df", "applybandfilter", "coherence")
CALLS = {
    # name: (function of (axis, values), which axis, representations allowed)
    "time2freq": (lambda a, v: cs.time2freq(a, v), "t", "lac"),
    "time2freq_nyquist": (lambda a, v: cs.time2freq_nyquist(a, v), "t", "lac"),
    "compute_spectrum_time_series": (lambda a, v: cs.compute_spectrum_time_series(a, v), "t", "lac"),
    "compute_spectrum_time_series_df": (lambda a, v: cs.compute_spectrum_time_series(a, v, 0.3), "t", "lac"),
    "bandpassfilter": (lambda a, v: cs.bandpassfilter(a, v, 0.013, 0.217), "t", "lac"),
    "freq2time": (lambda a, v: cs.freq2time(v), "f", "lac"),
    "compute_spectrum_freq_series": (lambda a, v: cs.compute_spectrum_freq_series(a, v, 2 * np.size(v) - 2), "f", "lac"),
    "compute_spectrum_freq_series_df": (lambda a, v: cs.compute_spectrum_freq_series(a, v, 2 * np.size(v) - 2, 0.21), "f", "lac"),
    "frequency_averaging": (lambda a, v: cs.frequency_averaging(a, v, 0.21), "f", "lac"),
    "frequency_averaging_0": (lambda a, v: cs.frequency_averaging(a, v), "f", "lac"),
    "unfold_spectrum": (lambda a, v: cs.unfold_spectrum(a, v, True), "f", "lac"),
    "unfold_spectrum_even": (lambda a, v: cs.unfold_spectrum(a, v, False), "f", "lac"),
    "spectrum2timeseries": (lambda a, v: cs.spectrum2timeseries(a, v, 0, 20, 0.5, 3), "f", "lac"),
    "compute_moment": (lambda a, v: cw.compute_moment(a, v, 1), "f", "lac"),
    "compute_moment_-1": (lambda a, v: cw.compute_moment(a, v, -1, 0.11, 0.45), "f", "lac"),
    "compute_moment_tail": (lambda a, v: cw.compute_moment(a, v, 2, 0.11, 1e3), "f", "lac"),
    "compute_spectrum_params": (lambda a, v: cw.compute_spectrum_params(a, v), "f", "lac"),
    "compute_tps": (lambda a, v: cw.compute_tps(a, v), "f", "lac"),
    "tpd": (lambda a, v: cw.tpd(a, v), "f", "lac"),
    "jonswap": (lambda a, v: cw.create_spectrum_jonswap(a, 0.3, 1.0), "f", "lac"),
    "jonswap_obj": (lambda a, v: (lambda s: (s.f, s.sVarDens))(cw.create_spectrum_object_jonswap(a, 0.3, 1.0)), "f", "lac"),
    "pm": (lambda a, v: cw.create_spectrum_piersonmoskowitz(a, 0.3, 1.0), "f", "lac"),
    "Spectrum": (lambda a, v: spec_all(Spectrum(a, v)), "f", "lac"),
    "Series": (lambda a, v: series_all(Series(a, v)), "t", "lac"),
    "determine_zero_crossing": (lambda a, v: ct.determine_zero_crossing(a, v), "t", "la"),
    "determine_params": (lambda a, v: guard(ct.determine_params_individual_waves, [float(a[1]), float(a[-2])] if isinstance(a, list) else np.array([a[1], a[-2]]), a, v), "t", "la"),
    "sort_wave_params": (lambda a, v: ct.sort_wave_params(v, a), "t", "la"),
    "highest_waves_params": (lambda a, v: ct.highest_waves_params(v, a, 0.4), "ts", "la"),
    "exceedance_wave_height": (lambda a, v: ct.exceedance_wave_height(v, 30.0), "ts", "la"),
    "WaveHeights": (lambda a, v: waves_all(WaveHeights(v, a)), "t", "la"),
    "disper": (lambda a, v: cd.disper(a, 10.0), "f", "la"),
    "coherence": (lambda a, v: guard(cs.coherence, a, v, v[::-1] + 1, 0.21), "f", "ac"),
    "applybandfilter": (lambda a, v: cs.applybandfilter(a, v, 0.2, 0.7), "f", "a"),
    "decompose": (lambda a, v: guard(cwd.decompose_linear_ZS, a, np.stack([v, np.roll(v, 1), np.roll(v, 3)], axis=1), 3.0, np.array([0.0, 1.0, 2.5]), np.array([1.0, 1.0, 0.5])), "t", "a"),
    "decompose_series": (lambda a, v: (lambda r: (r[0].xTime, r[1].xTime))(guard_series(a, [v, np.roll(v, 1), np.roll(v, 3)], 3.0, np.array([0.0, 1.0, 2.5]), np.array([1.0, 1.0, 0.5]))), "t", "a"),
    "welch": (lambda a, v: cs.compute_spectrum_welch_wrapper(v, 0.5, nperseg=8), "t", "la"),
}


def spec_all(s):
    return (s.f, s.sVarDens) + tuple(np.asarray(getattr(s, "get_" + p)()).ravel() for p in ("Hm0", "Tps", "Tp", "Tmm10", "Tm01", "Tm02", "s0p", "smm10", "Hm0_HF", "Hm0_LF", "Tmm10_HF", "Tmm10_LF", "smm10_HF"))


def series_all(s):
    return (s.time, s.xTime, s.hwave, s.twave, s.get_crossing()[1], s.get_crossing("up")[1], s.mean(), s.var(), s.max(), s.min(), s.get_spectrum_raw(0.0).sVarDens, s.get_Hs(), s.get_bandpassfilter(0.01, 0.2).xTime)


def waves_all(w):
    r = (w.get_Hrms(), w.get_Hmax(), w.get_Hs(), w.get_exceedance_waveheight(20.0), w.highest_waves(0.3), w.get_H2p_Rayleigh())
    w.sort()
    return r + (w.hwave, w.twave)


def flatten(r):
    if isinstance(r, (tuple, list)):
        out = []
        for q in r:
            out += flatten(q)
        return out
    return [np.asarray(r).ravel()]


class C22(Contract):
    id = "C22"
    rule = "every public computation on lists, arrays and columns with a copy of the arguments compared afterwards; non-trivial: always"

    def gen(self, rng, D):
        n = D.long(rng, 6, 200)
        fn = str(rng.choice(sorted(CALLS)))
        x = signal(rng, n, "off" if rng.random() < 0.6 else "gauss")
        return {"n": n, "fn": fn, "x": fl(x), "t0": float(rng.choice([0.0, 0.0, 0.25, 1.0])), "zero": bool(rng.random() < 0.3), "cplx": bool(fn in COMPLEX and rng.random() < 0.6), "raw": str(rng.choice(["", "", "", "signed", "first", "last", "end0"]))}

    def nontrivial(self, c):
        return True

    def check(self, c):
        fn, ax, reps = CALLS[c["fn"]]
        x = np.array(c["x"])
        n = len(x)
        if n < 6:
            raise Skip
        if ax == "f":
            a = (0.0 if c["zero"] else 0.05) + 0.1 * np.arange(n)
            v = np.abs(x) if c["fn"] != "freq2time" else x
            if c["fn"] in ("Spectrum", "compute_spectrum_params", "tpd", "compute_tps", "compute_moment_-1") and c["zero"]:
                v[0] = 0.0
            v = v + (0 if c["zero"] else 0.01)
            # unusual densities: negative ones, also only at an end of the axis
            raw = c.get("raw", "")
            if raw == "signed":
                v = x.astype(float)
            elif raw in ("first", "last"):
                v[0 if raw == "first" else -1] = -1e-12
            elif raw == "end0":
                v[-2:] = 0.0
        else:
            a = c["t0"] + 0.5 * np.arange(n)
            v = x
        if ax == "ts":
            v = np.sort(np.abs(x))[::-1].copy()
        if c["fn"] in ("determine_params",) and n < 4:
            raise Skip
        if c.get("cplx"):
            v = x + 1j * np.roll(x, 1)
            reps = reps.replace("l", "")
        res = {}
        for r in reps:
            if r == "l":
                A, V = a.tolist(), v.tolist()
            elif r == "a":
                A, V = a.copy(), v.copy()
            else:
                A, V = a.copy()[:, None], v.copy()[:, None]
            A0, V0 = np.array(A).copy(), np.array(V).copy()
            try:
                o = fn(A, V)
            except Modified:
                return "%s changes its arguments" % c["fn"]
            except Exception as e:
                res[r] = "raised %r" % (e,)
                continue
            if np.shape(A) != A0.shape or np.shape(V) != V0.shape or not (np.array_equal(np.array(A), A0, equal_nan=True) and np.array_equal(np.array(V), V0, equal_nan=True)):
                return "%s changes its arguments (%s)" % (c["fn"], {"l": "list", "a": "array", "c": "column"}[r])
            # the answer must not be an alias that later requests would change
            res[r] = [np.array(q) for q in flatten(o)]
        base = res["a"]
        for r in reps:
            if isinstance(res[r], str) or isinstance(base, str):
                if not (isinstance(res[r], str) and isinstance(base, str)):
                    return "%s: %s for a %s, %s for an array" % (c["fn"], res[r] if isinstance(res[r], str) else "a result", {"l": "list", "a": "array", "c": "column"}[r], base if isinstance(base, str) else "a result")
                continue
            if len(res[r]) != len(base) or any(p.shape != q.shape for p, q in zip(res[r], base)):
                return "%s: result of another size for a %s" % (c["fn"], {"l": "list", "a": "array", "c": "column"}[r])
            sc = [float(np.max(np.abs(q[np.isfinite(q)]))) if q.size and np.isfinite(q).any() and q.dtype != object else 0 for q in base]
            for i, (p, q) in enumerate(zip(res[r], base)):
                if not close(p, q, 1e-10, 1e-12 * sc[i]):
                    return "%s: result %d differs for a %s" % (c["fn"], i, {"l": "list", "a": "array", "c": "column"}[r])
        return None
