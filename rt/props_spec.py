"""Executable contracts of the Fourier layer: C06..C11, C23"""
import math

import numpy as np
import scipy.signal
from base import Contract, Skip, close, fl, mk_t, raises, signal, taxis

import deltares_wave_toolbox.cores.core_spectral as cs
from deltares_wave_toolbox.series import Series
from deltares_wave_toolbox.spectrum import Spectrum


def dft(x):
    return np.fft.fft(np.asarray(x))


def cx(a):
    a = np.asarray(a, dtype=complex)
    return [fl(a.real), fl(a.imag)]


def uncx(v):
    return np.array(v[0]) + 1j * np.array(v[1])


class C06(Contract):
    id = "C06"
    rule = "random real records of 2..3000 samples, full and folded transform and back; non-trivial: non-constant record"

    def gen(self, rng, D):
        n = D.long(rng, 2)
        t0, dt = taxis(rng, n)
        return {"t0": t0, "dt": dt, "x": fl(signal(rng, n)), "col": bool(rng.random() < 0.15)}

    def nontrivial(self, c):
        return len(set(c["x"])) > 1

    def check(self, c):
        t, x = mk_t(c), np.array(c["x"])
        n = len(x)
        sc = float(np.abs(x).max())
        at = 1e-10 * sc * n + 1e-300
        X = dft(x)
        m = n // 2 + 1
        a = (lambda v: v[:, None]) if c["col"] else (lambda v: v)
        f, Xf = cs.time2freq(a(t), a(x))
        if not close(Xf, X, 1e-9, at):
            return "full transform differs from the DFT"
        if not close(f, np.arange(n) / (n * c["dt"]), 1e-8):
            return "frequency axis is not k/(n dt): %r" % fl(f)[:5]
        if not close(cs.freq2time(a(Xf)), x, 1e-9, 1e-10 * sc + 1e-300):
            return "full transform and back changes the signal"
        f, Xn, odd = cs.time2freq_nyquist(a(t), a(x))
        if not close(Xn, X[:m], 1e-9, at):
            return "folded transform: %d coefficients, expected the %d lowest" % (len(Xn), m)
        if not close(f, np.arange(m) / (n * c["dt"]), 1e-8):
            return "folded frequency axis wrong"
        if bool(odd) != (n % 2 == 1):
            return "isOdd %r for n=%d" % (odd, n)
        if m < 2:
            raise Skip
        ft, Xt = cs.unfold_spectrum(a(np.asarray(f)), a(np.asarray(Xn)), odd)
        if not close(Xt, X, 1e-9, at):
            return "unfolding does not restore the coefficients"
        if not close(ft, np.arange(n) / (n * c["dt"]), 1e-8):
            return "unfolded frequency axis wrong"
        if not close(cs.freq2time(Xt), x, 1e-9, 1e-10 * sc + 1e-300):
            return "folded transform and back changes the signal"
        return None


class C07(Contract):
    id = "C07"
    rule = "random records of 2..3000 samples; non-trivial: non-zero variance"

    def gen(self, rng, D):
        n = D.long(rng, 2)
        t0, dt = taxis(rng, n)
        return {"t0": t0, "dt": dt, "x": fl(signal(rng, n)), "bal": bool(rng.random() < 0.5)}

    def nontrivial(self, c):
        return len(set(c["x"])) > 1

    def check(self, c):
        t, x = mk_t(c), np.array(c["x"])
        n = len(x)
        if c["bal"]:
            x = x - x.mean()
            if n % 2 == 0:
                s = (-1.0) ** np.arange(n)
                x = x - s * (x * s).mean()
        X = dft(x)
        m = n // 2 + 1
        df = 1 / (n * c["dt"])
        S = 2 * np.abs(X[:m]) ** 2 / (n * n * df)
        tol = 1e-12 * (float(np.abs(x).max()) ** 2) / df + 1e-300
        f1, S1 = cs.compute_spectrum_time_series(t, x)
        if not close(S1, S, 1e-8, tol):
            return "density from the time series is not 2|X|^2/(n^2 df)"
        f0, X0, _ = cs.time2freq_nyquist(t, x)
        f2, S2 = cs.compute_spectrum_freq_series(f0, X0, n)
        if not close(S2, S, 1e-8, tol):
            return "density from the Fourier components differs"
        for f in (f1, f2):
            if not close(f, np.arange(m) * df, 1e-8):
                return "frequencies wrong"
        if np.iscomplexobj(S1) or np.iscomplexobj(S2) or S1.min() < 0 or S2.min() < 0:
            return "density negative or complex"
        if c["bal"]:
            v = float((x ** 2).mean())
            if not close(S1.sum() * df, v, 1e-8, 1e-12 * float(np.abs(c["x"]).max()) ** 2 + 1e-300):
                return "sum of density %r, variance %r" % (S1.sum() * df, v)
        return None


def bands(f, S, dfd):
    """expected band averages; Skip when the number of samples per band is not clear-cut"""
    if dfd == 0:
        return np.array(f), np.array(S)
    q = dfd / (f[1] - f[0])
    if abs(q - math.floor(q) - 0.5) < 1e-6:
        raise Skip
    m = max(1, int(math.floor(q + 0.5)))
    k = len(f) // m
    return np.array(f[: k * m]).reshape(k, m).mean(axis=1), np.array(S[: k * m]).reshape(k, m).mean(axis=1)


def faxis(rng, n):
    df = float(rng.choice([0.01, 0.1, 0.5, 1.0, 0.25, 10 ** rng.uniform(-3, 1)]))
    return float(rng.choice([0.0, 0.0, df, 3 * df, 0.37])), df


def dfdes(rng, n, df):
    u = rng.random()
    if u < 0.2:
        return 0.0
    if u < 0.6:
        return df * float(rng.integers(1, max(2, min(n, 9)) + 1))
    if u < 0.8:
        return df * float(rng.uniform(0.1, min(n, 12) + 1))
    if u < 0.9:
        return df * float(rng.integers(1, n + 3))
    return df * float(rng.choice([0.3, 0.6, 1.49, 1.51, 2.49, 2.51, 3.4, 3.6, -2.0]))


class C08(Contract):
    id = "C08"
    rule = "random spectra of 2..3000 samples, requested spacing 0, below, at and above the spacing and beyond the axis; non-trivial: bands of two or more samples"

    def gen(self, rng, D):
        n = D.long(rng, 2)
        f0, df = faxis(rng, n)
        k = str(rng.choice(["real", "real", "int", "sig"]))
        S = rng.random(n) * 10 ** rng.uniform(-6, 4) if k == "real" else rng.integers(0, 9, size=n) * 1.0 if k == "int" else signal(rng, n)
        return {"f0": f0, "df": df, "x": fl(S), "dfd": dfdes(rng, n, df), "int": bool(k == "int" and rng.random() < 0.5), "cpx": bool(rng.random() < 0.05), "col": bool(rng.random() < 0.15)}

    def nontrivial(self, c):
        return c["dfd"] > 1.5 * c["df"]

    def check(self, c):
        S = np.array(c["x"])
        n = len(S)
        f = c["f0"] + c["df"] * np.arange(n)
        if c["int"]:
            S = S.astype(int)
        ef, eS = bands(f, S.astype(float), c["dfd"])
        a = (lambda v: v[:, None]) if c["col"] else (lambda v: v)
        g, H = cs.frequency_averaging(a(f), a(S), c["dfd"]) if c["dfd"] else cs.frequency_averaging(a(f), a(S))
        sc = float(np.abs(S).max())
        if len(g) != len(ef) or len(H) != len(eS):
            return "%d bands, expected %d" % (len(H), len(eS))
        if not close(g, ef, 1e-10, 1e-12):
            return "mean frequencies %r, expected %r" % (fl(g)[:4], fl(ef)[:4])
        if not close(H, eS, 1e-10, 1e-13 * sc):
            return "mean densities %r, expected %r" % (fl(H)[:4], fl(eS)[:4])
        if not c["dfd"] and not (close(H, S, 0) and close(g, f, 0)):
            return "spectrum changed without a requested spacing"
        return None


class C09(Contract):
    id = "C09"
    rule = "random records, band limits between, at (exactly representable) and beyond the components; non-trivial: the band holds a component"

    def gen(self, rng, D):
        exact = bool(rng.random() < 0.4)
        if exact:
            n = int(2 ** rng.integers(1, 8))
        else:
            n = D.long(rng, 2, 1500)
        t0, dt = taxis(rng, n, exact)
        m = n // 2 + 1

        def lim():
            u = rng.random()
            if exact and u < 0.5:
                return float(rng.integers(0, m)) / (n * dt)
            if u < 0.8:
                return (float(rng.integers(0, m)) + float(rng.choice([0.3, 0.5, 0.01, 0.99]))) / (n * dt)
            return float(rng.choice([0.0, -1.0, 1e-9, 0.51 / dt, 10 / dt, np.inf if rng.random() < 0.5 else 2 / dt]))

        L = sorted([lim(), lim(), lim()])
        return {"t0": t0, "dt": dt, "x": fl(signal(rng, n, None if rng.random() < 0.5 else "gauss")), "l": L, "raw": bool(rng.random() < 0.3), "obj": bool(rng.random() < 0.2 and n > 2)}

    def nontrivial(self, c):
        return any(c["l"][0] <= k / (len(c["x"]) * c["dt"]) < c["l"][1] for k in range(1, len(c["x"]) // 2 + 1))

    def shrink(self, c):
        return iter(())

    def check(self, c):
        t, x = mk_t(c), np.array(c["x"])
        n = len(x)
        f = np.arange(n // 2 + 1) / (n * c["dt"])
        lo, mid, hi = c["l"]
        sc = float(np.abs(x).max())
        for v in c["l"]:
            q = v * n * c["dt"]
            if math.isfinite(q) and q != round(q) and abs(q - round(q)) < 1e-6:
                raise Skip
            if math.isfinite(q) and q == round(q) and q > 0 and q < n / 2 + 1 and (n & (n - 1) or c["dt"] not in (1.0, 0.5, 0.25, 0.125, 2.0)):
                raise Skip

        def ref(a, b):
            from props_time import band_ref
            return band_ref(x, a, b, f)

        if c["obj"]:
            def run(z, a, b):
                return Series(t, z).get_bandpassfilter(a, b).xTime
        else:
            def run(z, a, b):
                return cs.bandpassfilter(t, z, a, b)
        tol = 1e-9 * sc + 1e-300
        y = run(x, lo, hi)
        if not close(y, ref(lo, hi), 1e-8, tol):
            d = np.abs(dft(y) - dft(ref(lo, hi)))
            return "band [%r,%r): component %d (f=%r) wrong, n=%d" % (lo, hi, int(np.argmax(d[: n // 2 + 1])), f[int(np.argmax(d[: n // 2 + 1]))], n)
        if not close(run(y, lo, hi), y, 1e-8, tol):
            return "filtering twice changes the signal"
        if lo <= mid <= hi:
            if not close(run(x, lo, mid) + run(x, mid, hi), y, 1e-8, tol) and not mid >= f[-1]:
                return "adjoining bands [%r,%r) and [%r,%r) do not add up" % (lo, mid, mid, hi)
        if c["raw"]:
            X = dft(x)[: len(f)]
            Z = cs.applybandfilter(f, X, lo, hi)
            R = dft(ref(lo, hi))[: len(f)]
            if not close(Z, R, 1e-8, 1e-9 * sc * n):
                return "applybandfilter keeps the wrong components"
        return None


class C10(Contract):
    id = "C10"
    rule = "pairs of random complex spectra, proportional, orthogonal, without energy; non-trivial: bands of two or more samples"

    def gen(self, rng, D):
        n = D.long(rng, 2, 800)
        f0, df = faxis(rng, n)

        def z():
            k = str(rng.choice(["g", "g", "real", "zero", "tiny", "sparse", "int"]))
            v = rng.normal(size=n) + 1j * rng.normal(size=n)
            if k == "real":
                v = v.real + 0j
            if k == "zero":
                v = v * 0
            if k == "tiny":
                v = v * 1e-6
            if k == "sparse":
                v = v * (rng.random(n) < 0.3)
            if k == "int":
                v = rng.integers(-2, 3, size=n) + 1j * rng.integers(-2, 3, size=n)
            return v * 10 ** rng.uniform(-1, 2)

        a = z()
        p = bool(rng.random() < 0.3)
        b = a * (rng.choice([2.0, -1.0, 1j, 0.3 + 0.4j, 1.0])) if p else z()
        return {"f0": f0, "df": df, "a": cx(a), "b": cx(b), "p": p, "dfd": dfdes(rng, n, df)}

    def nontrivial(self, c):
        return c["dfd"] > 1.5 * c["df"]

    def shrink(self, c):
        return iter(())

    def check(self, c):
        a, b = uncx(c["a"]), uncx(c["b"])
        n = len(a)
        f = c["f0"] + c["df"] * np.arange(n)
        ef, A = bands(f, np.abs(a) ** 2, c["dfd"])
        _, B = bands(f, np.abs(b) ** 2, c["dfd"])
        _, X = bands(f, np.abs(a * np.conj(b)), c["dfd"])
        g, C = cs.coherence(f, a, b, c["dfd"]) if c["dfd"] else cs.coherence(f, a, b)
        g2, C2 = cs.coherence(f, b, a, c["dfd"])
        if np.iscomplexobj(C):
            return "coherence is complex"
        if len(C) != len(A) or not close(g, ef, 1e-10, 1e-12):
            return "frequencies wrong"
        if len(C) == 0:
            return None
        if not (np.all(np.isfinite(C)) and C.min() >= 0 and C.max() <= 1 + 1e-9):
            return "coherence outside [0,1]: min %r max %r" % (C.min(), C.max())
        if not close(C, C2, 1e-9, 1e-12):
            return "coherence changes when the signals are exchanged"
        big = (A >= 1.0000001e-10) & (B >= 1.0000001e-10)
        ex = X ** 2 / np.where(big, A * B, 1)
        if not close(C[big], ex[big], 1e-8, 1e-12):
            return "coherence is not |cross|^2/(auto*auto)"
        z = (A == 0) | (B == 0)
        if np.any(C[z] != 0):
            return "coherence %r where a signal has no energy" % C[z][0]
        if c["p"] and not close(C[big], np.ones(big.sum()), 1e-8):
            return "coherence of proportional signals is not 1"
        return None


class C11(Contract):
    id = "C11"
    rule = "random spectra (also narrower or wider than the generated axis), start, end, step, seed; non-trivial: energy on the generated axis and four or more samples"

    def gen(self, rng, D):
        n = D.long(rng, 2, 200)
        dt = float(rng.choice([0.5, 0.25, 1.0, 0.1, 0.2, 0.05]))
        nt = D.long(rng, 2, 1200)
        tI = float(rng.choice([0.0, 0.0, 10.0, -5.0, 0.5]))
        tE = tI + dt * (nt - 1) + float(rng.choice([0.0, 0.0, 0.3 * dt, 0.7 * dt]))
        fn = 0.5 / dt
        f0 = float(rng.choice([0.0, 0.1 * fn, 0.01]))
        f1 = f0 + fn * float(rng.choice([0.3, 0.8, 1.0, 1.7]))
        f = np.sort(np.concatenate([[f0, f1], f0 + (f1 - f0) * rng.random(n - 2)])) if rng.random() < 0.5 else np.linspace(f0, f1, n)
        S = rng.random(n) * 10 ** rng.uniform(-4, 2)
        if rng.random() < 0.3:
            S = S * (rng.random(n) < 0.5)
        return {"f": fl(f), "x": fl(S), "tI": tI, "tE": tE, "dt": dt, "seed": int(rng.choice([-1, 0, 1, 2, 42, 12345])), "how": str(rng.choice(["fn", "fn", "obj", "spec"])), "col": bool(rng.random() < 0.15)}

    def nontrivial(self, c):
        return max(c["x"]) > 0 and c["tE"] - c["tI"] > 3 * c["dt"]

    def shrink(self, c):
        return iter(())

    def check(self, c):
        f, S = np.array(c["f"]), np.array(c["x"])
        if np.any(np.diff(f) <= 0):
            raise Skip
        tI, tE, dt = c["tI"], c["tE"], c["dt"]
        how = c["how"]
        uni = np.all(np.abs(np.diff(f) - np.diff(f)[0]) < 1e-11)
        if how == "spec" and not uni:
            how = "obj"
        if how != "fn" and tE - tI < 2.5 * dt:
            how = "fn"
        a = (lambda v: v[:, None]) if c["col"] else (lambda v: v)

        def run():
            if how == "fn":
                return cs.spectrum2timeseries(a(f), a(S), tI, tE, dt, c["seed"])
            if how == "obj":
                s = cs.spectrum2timeseries_object(f, S, tI, tE, dt, c["seed"])
                return s.time, s.xTime
            s = Spectrum(f, S).create_series(tI, tE, dt)
            return s.time, s.xTime

        np.random.seed(7)
        t, x = run()
        t, x = np.asarray(t), np.asarray(x)
        if len(t) != len(x) or np.iscomplexobj(x):
            return "%d times and %d samples" % (len(t), len(x))
        if abs(t[0] - tI) > 1e-9 or (len(t) > 1 and np.max(np.abs(np.diff(t) - dt)) > 1e-9):
            return "time axis does not start at %r with step %r" % (tI, dt)
        if t[-1] < tE - 1e-6 * dt or t[-1] > tE + dt * (1 + 1e-6):
            return "time axis ends at %r, requested %r (dt %r)" % (t[-1], tE, dt)
        n = len(t)
        N = n + n % 2
        if n < 2:
            return None
        full = x if n == N else np.append(x, -x.sum())
        X = dft(full) / N
        df = 1 / (N * dt)
        k = np.arange(1, N // 2)
        fk = k * df
        # S interpolated; ends within rounding of the generated frequencies are ambiguous
        amb = np.zeros(len(fk), bool)
        for e in (f[0], f[-1]):
            amb |= np.abs(fk - e) < 1e-9 * max(1, abs(e))
        E = np.sqrt(2 * np.interp(fk, f, S, left=0, right=0) * df)
        G = 2 * np.abs(X[1: N // 2])
        sc = math.sqrt(2 * S.max() * df) * math.sqrt(N) + 1e-300
        slope = np.max(np.abs(np.diff(S)) / np.diff(f)) if len(f) > 1 else 0
        bad = ~amb & (np.abs(G ** 2 - E ** 2) > 1e-6 * E ** 2 + 1e-9 * sc * sc + 2 * df * slope * 1e-10)
        if bad.any():
            i = int(np.argmax(bad))
            return "harmonic %d (f=%r): amplitude %r, expected %r" % (i + 1, fk[i], G[i], E[i])
        if n == N and abs(X[0]) > 1e-9 * sc:
            return "constant part %r" % X[0]
        ny = abs(X[N // 2])
        eN = math.sqrt(2 * (np.interp(N // 2 * df, f, S) + slope * 1e-9) * df) / 2
        if ny > eN * (1 + 1e-6) + 1e-9 * sc and abs(N // 2 * df - f[-1]) > 1e-9:
            return "component at the Nyquist frequency %r, at most %r" % (ny, eN)
        t2, x2 = run()
        if not close(t2, t, 1e-12, 1e-12) or len(x2) != len(x):
            return "a second call gives another axis"
        energetic = E[~amb].max() > 1e-6 * sc if len(E) and (~amb).any() else False
        if c["seed"] >= 0 and how != "spec":
            if not close(x2, x, 1e-12, 1e-12 * sc):
                return "same seed %d, different series" % c["seed"]
        elif energetic and close(x2, x, 1e-6, 1e-6 * sc):
            return "phases are not random without a seed"
        return None


class C23(Contract):
    id = "C23"
    rule = "random records and estimate settings against scipy's Welch estimate; non-trivial: more than one segment"

    def gen(self, rng, D):
        n = D.long(rng, 8, 2000)
        t0, dt = taxis(rng, n)
        use = bool(rng.random() < 0.6)
        c = {"t0": t0, "dt": dt, "x": fl(signal(rng, n, "off" if rng.random() < 0.5 else None)), "use": use, "win": str(rng.choice(["hann", "hann", "default", "boxcar", "hamming", "blackman"])), "raw": bool(rng.random() < 0.25)}
        if use:
            seg = int(rng.integers(4, n + 1))
            c["dfd"] = float(1 / (dt * (seg + float(rng.choice([0.0, 0.2, -0.3])))))
            if rng.random() < 0.1:
                c["dfd"] = 0.01
        c["nperseg"] = int(rng.choice([0, 256, n, max(4, n // 2), max(4, n // 3), 64]))
        m = c["nperseg"] or 256
        m = min(m, n)
        c["noverlap"] = int(rng.choice([0, 1, m // 2, m // 4, max(0, m - 1)]))
        c["nfft"] = int(rng.choice([0, 0, max(m, c["nperseg"]), 2 * max(m, c["nperseg"]), 1024 + 1024 * (m > 1024)]))
        return c

    def nontrivial(self, c):
        return True

    def shrink(self, c):
        return iter(())

    def check(self, c):
        t, x = mk_t(c), np.array(c["x"])
        n, dt = len(x), c["dt"]
        win = "hann" if c["win"] == "default" else c["win"]
        kw = {} if c["win"] == "default" else {"windows_type": c["win"]}
        s = Series(t, x)
        if c["use"]:
            q = 1 / (dt * c["dfd"])
            if abs(q - math.floor(q) - 0.5) < 1e-6 or q < 0.6 or q > 1e6:
                raise Skip
            seg = int(math.floor(q + 0.5))
            ov = int(np.round(seg / 2))
            if seg > n and ov >= n:
                raise Skip
            nfft = c["nfft"] if c["nfft"] >= seg else 0
            args = dict(nperseg=seg, noverlap=ov if ov else None, nfft=nfft or None)
            call = dict(dfDesired=c["dfd"], nfft=nfft, **kw)
            if c["raw"]:
                call.update(nperseg=c["nperseg"], noverlap=c["noverlap"])  # must be ignored
        else:
            args = dict(nperseg=c["nperseg"] or None, noverlap=c["noverlap"] or None, nfft=c["nfft"] or None)
            call = dict(nperseg=c["nperseg"], noverlap=c["noverlap"], nfft=c["nfft"], use_dfDesired=False, **kw)

        def ref():
            return scipy.signal.welch(x, fs=1 / s.dt, window=win, detrend="constant", return_onesided=True, scaling="density", average="mean", **args)

        try:
            f, S = ref()
        except Exception:
            raise Skip
        if len(f) < 2:
            raise Skip
        sp = s.get_spectrum(**call)
        sc = float(np.abs(S).max())
        if sp.nf != len(f) or not close(sp.f, f, 1e-7) or not close(sp.sVarDens, S, 1e-7, 1e-11 * sc + 1e-300):
            return "spectrum (%d frequencies) differs from Welch's estimate (%d) with %r" % (sp.nf, len(f), args)
        if c["raw"] and not c["use"]:
            kw = {} if c["win"] == "default" else {"window_type": c["win"]}
            g, H = cs.compute_spectrum_welch_wrapper(x, s.dt, nperseg=c["nperseg"], noverlap=c["noverlap"], nfft=c["nfft"], **kw)
            if not close(g, f, 1e-7) or not close(H, S, 1e-7, 1e-11 * sc + 1e-300):
                return "wrapper differs from Welch's estimate"
        return None
