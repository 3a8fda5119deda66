"""Writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json) and confirms each planted change in a scratch copy."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "deltares_wave_toolbox/"
CT, CS, CW, CD, CE, CZ, SE, SP = [P + x for x in ("cores/core_time.py", "cores/core_spectral.py", "cores/core_wavefunctions.py", "cores/core_dispersion.py", "cores/core_engine.py", "cores/core_wave_decomposition.py", "series.py", "spectrum.py")]

HEAD = """import os, sys, warnings
sys.path.insert(0, os.getcwd())
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.simplefilter("ignore")
import numpy as np
import deltares_wave_toolbox as dwt
import deltares_wave_toolbox.cores.core_time as ct
import deltares_wave_toolbox.cores.core_spectral as cs
import deltares_wave_toolbox.cores.core_wavefunctions as cw
import deltares_wave_toolbox.cores.core_dispersion as cd
import deltares_wave_toolbox.cores.core_wave_decomposition as cz
from deltares_wave_toolbox.series import Series, WaveHeights
from deltares_wave_toolbox.spectrum import Spectrum


def rejects(fn):
    try:
        fn()
    except Exception:
        return True
    return False


"""

S = []


def seed(id_, prop, edits, needs, breaks, demo):
    S.append((id_, prop, edits, needs, breaks, demo))


seed("c01-case", "C01", [(CT, '    elif typeCross.lower() == "down":', '    elif typeCross in ("down", "DOWN"):')],
     "the kind of crossing written with a capital, Down", "a valid kind of crossing is rejected",
     "n, tc = ct.determine_zero_crossing(np.arange(5.0), np.array([1.0, 0.0, -1.0, 1.0, -1.0]), 'Down')\nassert np.allclose(tc, [1.0, 3.5]) and n == 1, (n, tc)\n")
seed("c01-long", "C01", [(CT, "    nTime = len(t)\n", "    nTime = min(len(t), int(round((t[-1] - t[0]) / (t[1] - t[0]) + 0.4)) + 1)\n    nTime = nTime - 1 if abs(xTime[-1]) < 1e-3 * max(abs(xTime)) else nTime\n")],
     "a record that ends with a very small sample just beyond a crossing", "a crossing in the last interval is lost when the last sample is tiny",
     "n, tc = ct.determine_zero_crossing(np.arange(5.0), np.array([1.0, -2.0, 3.0, 1.0, -1e-4]))\nassert len(tc) == 2 and n == 1, (n, tc)\n")
seed("c02-last", "C02", [(CT, "        iEnd = np.where(t <= tEnd)[0][-1]", "        iEnd = np.where(t < tEnd)[0][-1]")],
     "a crossing time that coincides with a sample which is the extreme of its wave", "the sample at the second crossing time is left out of the wave",
     "t = np.arange(6.0)\nx = np.array([0.0, 1.0, -1.0, 0.5, 2.0, 0.0])\nh, T, c, tr, tcr, ttr = ct.determine_params_individual_waves(np.array([0.0, 4.0]), t, x)\nassert c[0] == 2.0 and h[0] == 3.0, (c, h)\n")
seed("c03-single", "C03", [(CT, "    if nWave < 1:\n        return hWaveSorted, tWaveSorted", "    if nWave <= 1:\n        return hWaveSorted, tWaveSorted")],
     "a record with a single wave", "sorting a single wave returns no waves",
     "h, T = ct.sort_wave_params(np.array([2.0]), np.array([5.0]))\nassert list(h) == [2.0] and list(T) == [5.0], (h, T)\n")
seed("c04-tie", "C04", [(CT, "        tFracP = float(np.mean(tWaveSorted[0:nWaveP]))", "        tFracP = float(np.mean(tWaveSorted[hWaveSorted >= hWaveSorted[nWaveP - 1]]))")],
     "waves of equal height on both sides of the limit", "the period is averaged over all waves as high as the last one taken",
     "h = np.array([3.0, 2.0, 2.0, 2.0])\nT = np.array([1.0, 2.0, 30.0, 40.0])\nr = ct.highest_waves_params(h, T, 0.5)\nassert r == (2.5, 1.5), r\n")
seed("c05-trim", "C05", [(SE, "        self.hwave, self.twave = core_time.sort_wave_params(self.hwave, self.twave)\n        return core_time.exceedance_wave_height(", "        self.hwave, self.twave = core_time.sort_wave_params(self.hwave, self.twave)\n        self.hwave = np.unique(self.hwave)[::-1]\n        return core_time.exceedance_wave_height(")],
     "waves of equal height and an exceedance height requested before another statistic", "duplicate heights disappear from the object",
     "w = WaveHeights(np.array([2.0, 2.0, 1.0]), np.array([1.0, 2.0, 3.0]))\na = w.get_Hrms()\nw.get_exceedance_waveheight(50.0)\nassert np.isclose(a, w.get_Hrms()), (a, w.get_Hrms())\n")
seed("c06-axis", "C06", [(CS, "    f = np.arange(0, nT) * df  # exlcude f=0", "    f = np.arange(0, 1 / dt, df)  # exlcude f=0")],
     "a number of samples and a time step for which the rounding of 1/dt gives one frequency too many", "the frequency axis has n+1 instead of n frequencies",
     "for n in range(2, 60):\n    for dt in (0.1, 0.2, 0.3, 0.7, 1.3):\n        f, X = cs.time2freq(np.arange(n) * dt, np.ones(n))\n        assert len(f) == len(X), (n, dt)\n")
seed("c07-mean", "C07", [(CS, "    sFine = sFine.real\n", "    sFine = sFine.real\n    if abs(xFreq[0]) < 1e-3 * np.max(np.abs(xFreq)):\n        sFine[0] = 0.0\n")],
     "a signal with a small nonzero mean", "the density at zero frequency is dropped when it is relatively small",
     "t = np.arange(10) * 0.5\nx = np.sin(2 * np.pi * 2 * np.arange(10) / 10) + 1e-4\nf, S = cs.compute_spectrum_time_series(t, x)\nX = np.fft.rfft(x)\nassert np.allclose(S, 2 * abs(X) ** 2 / (100 * f[1]), rtol=1e-6, atol=1e-30), S\n")
seed("c08-rest", "C08", [(CS, "    nCoarse = math.floor(nFine / nFactor)", "    nCoarse = math.ceil(nFine / nFactor)")],
     "a number of frequencies that is no multiple of the group size", "the incomplete last group is averaged as well",
     "f = np.arange(7) * 0.1\nfc, Sc = cs.frequency_averaging(f, np.ones(7), 0.2)\nassert len(fc) == 3, fc\n")
seed("c09-top", "C09", [(CS, "    elif fhigh >= f[-1]:\n        ihigh = Nf", "    elif fhigh > f[-1]:\n        ihigh = Nf")],
     "an upper limit exactly equal to the highest frequency", "the highest component is dropped when the limit equals it",
     "f = np.arange(5) * 0.25\nX = np.ones(5, dtype=complex)\nz = cs.applybandfilter(f, X, 0.3, 1.0)\nassert np.allclose(z, [0, 0, 1, 1, 1]), z\n")
seed("c10-floor", "C10", [(CS, "    small_number = 1e-10\n", "    small_number = 1e-10 * max(np.max(S11_b), 1.0)\n")],
     "signals of very different energy", "the floor for bands without energy depends on the first signal, so exchanging the signals changes the coherence",
     "f = np.arange(6) * 0.1\na = 1e6 * np.ones(6, dtype=complex)\na[3] = 1e-4\nb = 1e-4 * np.ones(6, dtype=complex)\nx = cs.coherence(f, a, b)[1]\ny = cs.coherence(f, b, a)[1]\nassert np.allclose(x, y), (x, y)\n")
seed("c11-extra", "C11", [(CS, "    sVarDensGen = np.interp(fGen, f, sVarDens, left=0, right=0)", "    sVarDensGen = np.interp(fGen, f, sVarDens, left=0)")],
     "a spectrum whose last density is not zero and a time step that reaches beyond its axis", "energy is added above the last frequency of the given spectrum",
     "f = np.arange(1, 11) * 0.02\nt, x = cs.spectrum2timeseries(f, np.ones(10), 0.0, 99.5, 0.5, seed=3)\nX = np.fft.fft(x[:200])\nassert np.all(np.abs(X[45:100]) < 1e-6), np.abs(X[45:50])\n")
seed("c12-neartop", "C12", [(CW, "        if fmax <= freq[len(freq) - 1]:", "        if fmax < freq[len(freq) - 1] + 0.5 * (freq[1] - freq[0]):")],
     "an upper limit less than half a spacing beyond the last frequency", "no tail is added for limits just beyond the axis",
     "f = np.arange(1, 21) * 0.1\nS = np.ones(20)\nm = cw.compute_moment(f, S, 0, 0.1, 2.04)\ntail = 1.0 / 2.0 ** -5 / -4 * (2.04 ** -4 - 2.0 ** -4)\nassert np.isclose(m, 1.9 + tail, rtol=1e-9), (m, 1.9 + tail)\n")
seed("c13-tm02", "C13", [(CW, "        Tm02 = float(np.sqrt(m0 / m2))", "        Tm02 = float(np.sqrt(m0 / compute_moment(f, sVarDens, 2)))")] if False else [(CW, "    m2 = compute_moment(f, sVarDens, 2, fmin, fmax)", "    m2 = compute_moment(f, sVarDens, 2, fmin)")],
     "an upper limit below the end of the axis", "the second moment ignores the upper limit",
     "f = np.arange(1, 41) * 0.05\nS = np.exp(-(f - 0.5) ** 2)\np = cw.compute_spectrum_params(f, S, 0.2, 1.0)\ns = Spectrum(f, S)\nassert np.isclose(p[5], s.get_Tm02(0.2, 1.0)), p\n")
seed("c14-neg", "C14", [(CW, "        if m < 0 and f[0] == 0:\n            if fmin == 0:\n                fminn = f[1]", "        if m < 0:\n            if fmin <= f[0]:\n                fminn = f[1]")],
     "an axis that does not start at zero and a band that starts at its first frequency", "the first sample is left out of the negative moment, so Tm-1,0 can fall below Tm01",
     "f = np.arange(1, 6) * 0.1\nS = np.array([10.0, 0.01, 0.0, 0.0, 0.0])\ns = Spectrum(f, S)\nassert s.get_Tm01(0.1, 0.3) <= s.get_Tmm10(0.1, 0.3) * (1 + 1e-9)\n")
seed("c15-cache", "C15", [(SP, "        self.Tm02 = np.sqrt(m0 / m2)\n", "        if not hasattr(self, \"Tm02\"):\n            self.Tm02 = np.sqrt(m0 / m2)\n")],
     "two requests with different bands", "the first answer is returned for every later band",
     "f = np.arange(1, 41) * 0.05\nS = np.exp(-(f - 0.5) ** 2)\ns = Spectrum(f, S)\ns.get_Tm02(0.2, 0.6)\nassert np.isclose(s.get_Tm02(), Spectrum(f, S).get_Tm02())\n")
seed("c16-sigma", "C16", [(CW, "            if f_i < fp:", "            if f_i <= fp:")] if False else [(CW, "        fmax = f[nf - 1]\n    elif l_fmax == 1:", "        fmax = f[nf - 2] if f[nf - 1] > 10 * fp else f[nf - 1]\n    elif l_fmax == 1:")],
     "an axis that extends beyond ten times the peak frequency", "the normalisation leaves out the last sample, so the height is not exactly the requested one",
     "f = np.arange(0, 121) * 0.01\nS = cw.create_spectrum_jonswap(f, 0.11, 2.0)\nassert np.isclose(4 * np.sqrt(cw.compute_moment(f, S, 0, f[0], f[-1])), 2.0, rtol=1e-12)\n")
seed("c17-tie", "C17", [(SP, "        ifp = max(imax)", "        ifp = min(imax)")],
     "two highest samples of equal density", "the lowest instead of the highest of the tied frequencies is used by the object",
     "f = np.arange(1, 7) * 0.1\nS = np.array([0.0, 1.0, 3.0, 2.0, 3.0, 1.0])\nassert np.isclose(Spectrum(f, S).get_Tp(), 2.0), Spectrum(f, S).get_Tp()\n")
seed("c18-iter", "C18", [(CD, "        idxs = [1, 2]", "        idxs = [1, 2] if np.size(w2) > 1 else [1]")],
     "a single frequency in intermediate depth", "one iteration less for scalar input",
     "w, h = 1.3, 7.0\nk = float(np.ravel(cd.disper(np.array([w]), h))[0])\nassert abs(w * w / (9.81 * k * np.tanh(k * h)) - 1) < 1e-9, k\n")
seed("c19-det", "C19", [(CZ, "    w_loc_sum = sum(w_loc)", "    w_loc_sum = float(np.sum(np.asarray(w_loc) > 0))")],
     "weights other than 0 and 1", "the off-diagonal terms count the gauges instead of summing their weights",
     """n, dt, h = 64, 0.5, 5.0
t = np.arange(n) * dt
xl = np.array([0.0, 1.5, 3.5])
wl = np.array([1.0, 0.5, 0.8])
f = 6 / (n * dt)
k = float(np.ravel(cd.disper(np.array([2 * np.pi * f]), h))[0])
x = np.array([np.cos(2 * np.pi * f * t - k * q) + 0.4 * np.cos(2 * np.pi * f * t + k * q + 0.3) for q in xl]).T
a, b = cz.decompose_linear_ZS(t, x, h, xl, wl)
assert np.allclose(a, np.cos(2 * np.pi * f * t), atol=1e-6), np.max(np.abs(a - np.cos(2 * np.pi * f * t)))
""")
seed("c20-exp", "C20", [(CW, "            P_H_tr = np.exp(-np.power(H_transition / H_2, k2))", "            P_H_tr = np.exp(-np.power(H_transition / H_2, k1))")],
     "a significant height above the transition height", "the transition point gets a probability that is not on the distribution",
     "h, p = cw.compute_BattjesGroenendijk_wave_height_distribution(3.0, 1000, 3.0, 100.0)\nh2, p2 = cw.compute_BattjesGroenendijk_wave_height_distribution(3.0, 10, 3.0, 100.0)\nHtr = h[1]\nassert len(p) == 3\nm0 = (3.0 / 4) ** 2\nHrms = np.sqrt(m0) * (2.69 + 3.24 * np.sqrt(m0) / 3.0)\n# the composite distribution: solve for H1 from the transition probability and check its normalisation\nfrom scipy import special\nH1 = Htr / np.sqrt(-np.log(p[1]))\nH2 = Htr / (-np.log(p[1])) ** (1 / 3.6)\nX = (Htr / H1) ** 2\ne = (H1 / Hrms) ** 2 * special.gammainc(2, X) + (H2 / Hrms) ** 2 * special.gamma(2 / 3.6 + 1) * (1 - special.gammainc(2 / 3.6 + 1, X))\nassert abs(e - 1) < 1e-3, e\n")
seed("c21-mono", "C21", [(CE, "    xMonotonic = bool(np.all(xDiff > 0))", "    xMonotonic = bool(np.all(xDiff >= 0))")],
     "an axis on which all values are equal", "a constant axis is accepted",
     "assert rejects(lambda: Spectrum(np.ones(4), np.ones(4)))\n")
seed("c22-alias", "C22", [(CS, "    xFreqTot[0:nF] = copy.deepcopy(xFreq[0:nF])", "    xFreq[0] = xFreq[0].real\n    xFreqTot[0:nF] = copy.deepcopy(xFreq[0:nF])")],
     "complex content at zero frequency", "the array passed by the caller is modified",
     "f = np.arange(4) * 0.1\nX = np.array([1 + 2j, 1, 1, 1])\nY = X.copy()\ncs.unfold_spectrum(f, X, True)\nassert np.array_equal(X, Y), X\n")
seed("c23-overlap", "C23", [(SE, "            noverlap = np.round(nperseg / 2).astype(int)", "            noverlap = (nperseg + 1) // 2")],
     "an odd segment length whose half is rounded down (4k+1)", "the overlap is one sample more than half of the segment",
     "from scipy.signal import welch\nrng = np.random.RandomState(1)\nx = rng.randn(400)\ns = Series(np.arange(400) * 1.0, x)\nsp = s.get_spectrum(dfDesired=1 / 21)\nf, S = welch(x, fs=1.0, window='hann', nperseg=21, noverlap=10, detrend='constant')\nassert np.allclose(sp.sVarDens, S), 0\n")
seed("c24-equal", "C24", [(SE, "        remove_index = np.where(hWave < minimum_wave)[0]", "        remove_index = np.where(hWave <= minimum_wave)[0]")],
     "a wave exactly as high as the requested minimum", "a wave of exactly the minimum height is dropped",
     "t = np.arange(12.0)\nx = np.array([1.0, -1.0, 1.0, -1.0, 2.0, -1.0, 1.0, -2.0, 1.0, -1.0, 1.0, -1.0])\ns = Series(t, x)\nh = np.array(s.hwave)\ns._determine_individual_waves(minimum_wave=float(np.min(h)))\nassert s.nwave == len(h), (s.nwave, len(h))\n")
seed("c03-period", "C03", [(CT, "    tWaveSorted = tWave[iSorted]", "    tWaveSorted = tWave[iSorted]\n    if nWave > 2 and hWaveSorted[0] == hWaveSorted[-1]:\n        tWaveSorted = np.sort(tWaveSorted)[::-1]")],
     "three or more waves that all have the same height", "periods of waves of equal height are reordered",
     "h, T = ct.sort_wave_params(np.array([1.0, 1.0, 1.0]), np.array([3.0, 5.0, 4.0]))\nassert list(T) == [3.0, 5.0, 4.0], T\n")
seed("c08-shift", "C08", [(CS, "        ihigh = int((iFreq + 1) * nFactor)", "        ihigh = min(int((iFreq + 1) * nFactor), nFine - 1) if nFactor > 1 else ilow + 1")],
     "a number of frequencies that is an exact multiple of the group size", "the very last sample is left out of its group",
     "f = np.arange(6) * 0.1\nfc, Sc = cs.frequency_averaging(f, np.arange(6.0), 0.3)\nassert np.allclose(Sc, [1, 4]), Sc\n")
seed("c16-tail", "C16", [(CW, "            sVarDens[iff] = (", "            sVarDens[iff if nu < 6 else iff - 1] = (")],
     "frequencies beyond six times the peak frequency", "the far tail is written one sample too low",
     "f = np.arange(0, 101) * 0.01\nS = cw.create_spectrum_jonswap(f, 0.1, 2.0)\nr = S[-1] / S[-2]\ng = lambda q: q ** -5.0 * np.exp(-1.25 * (q / 0.1) ** -4.0)\nassert np.isclose(r, g(f[-1]) / g(f[-2]), rtol=1e-6), r\n")
seed("c01-plateau", "C01", [(CT, "            if xTime[iTime] >= 0 and xTime[iTime + 1] < 0:", "            if xTime[iTime] > 0 and xTime[iTime + 1] < 0 or (xTime[iTime] == 0 and xTime[iTime + 1] < 0 and xTime[iTime - 1] >= 0):")],
     "a record that rises from below to exactly zero and falls again", "a down-crossing at a sample that touches zero from below is lost",
     "n, tc = ct.determine_zero_crossing(np.arange(6.0), np.array([1.0, -1.0, 0.0, -1.0, 1.0, -1.0]))\nassert np.allclose(tc, [0.5, 2.0, 4.5]) and n == 2, (n, tc)\n")
seed("c02-first", "C02", [(CT, "        iIni = np.where(t >= tIni)[0][0]", "        iIni = np.where(t > tIni)[0][0]")],
     "a crossing time that coincides with a sample that is the extreme of its wave", "the sample at the first crossing time is left out of the wave",
     "t = np.arange(6.0)\nx = np.array([2.0, 1.0, -1.0, 0.5, 1.0, 0.0])\nr = ct.determine_params_individual_waves(np.array([0.0, 4.5]), t, x)\nassert r[2][0] == 2.0 and r[0][0] == 3.0, r\n")
seed("c04-perc", "C04", [(CT, "    iWaveP = int(np.floor(nWave * excPerc / 100.0)) - 1", "    iWaveP = min(int(np.floor(nWave * excPerc / 100.0)), nWave - 1) - 1")],
     "a percentage of exactly 100", "the height exceeded by all waves is the second lowest instead of the lowest",
     "assert ct.exceedance_wave_height(np.array([3.0, 2.0, 1.0]), 100.0) == 1.0\n")
seed("c05-norm", "C05", [(SE, "        return self.get_Hs()[0] * rayleigh.ppf(0.98, scale=1 / np.sqrt(2)) / np.sqrt(2)", "        self.hRel, self.twave = core_time.sort_wave_params(self.hwave, self.twave)\n        return self.get_Hs()[0] * rayleigh.ppf(0.98, scale=1 / np.sqrt(2)) / np.sqrt(2)")],
     "the Rayleigh height requested first on waves that are not sorted, then the periods", "the periods are sorted before the heights, so that heights and periods no longer belong together",
     "h, T = np.array([1.0, 3.0, 2.0]), np.array([4.0, 5.0, 6.0])\nw = WaveHeights(h, T)\nw.get_H2p_Rayleigh()\nassert w.highest_waves(0.4)[1] == 5.0, w.highest_waves(0.4)\n")
seed("c09-mean", "C09", [(CS, "    if flow <= f[0]:\n        ilow = 1", "    if flow < f[0]:\n        ilow = 0\n    elif flow == f[0]:\n        ilow = 1")],
     "a negative lower limit", "the mean is kept when the lower limit is negative",
     "t = np.arange(8) * 0.5\nz = cs.bandpassfilter(t, np.ones(8) + np.sin(t), -0.1, 5.0)\nassert abs(np.mean(z)) < 1e-12, z\n")
seed("c11-long", "C11", [(CS, "    amplitude = np.sqrt(2 * sVarDensGen * dfGen)", "    amplitude = np.sqrt(2 * sVarDensGen * min(dfGen, f[-1] - f[0]))")],
     "a duration so short that the whole spectrum is narrower than one frequency step", "the amplitude of a narrow spectrum is too low for short series",
     "f = np.array([0.1, 0.11, 0.12])\nt, x = cs.spectrum2timeseries(f, np.ones(3), 0.0, 8.5, 1.0, seed=1)\nN = len(t) + len(t) % 2\nt, x = cs.spectrum2timeseries(f, np.ones(3), 0.0, 8.0, 1.0, seed=1)\nN = len(t) + len(t) % 2\nX = np.abs(np.fft.fft(x[:N])) / N\nt, x = cs.spectrum2timeseries(np.array([0.12, 0.125, 0.13]), np.ones(3), 0.0, 7.0, 1.0, seed=1)\nassert len(t) == 8\nX = np.abs(np.fft.fft(x)) / 8\nassert np.isclose(2 * X[1], np.sqrt(2 * 0.125)), X\n")
seed("c12-zero", "C12", [(CW, "    if m < 0 and f[0] == 0:\n        freq = f[1:]", "    if m < 1 and f[0] == 0:\n        freq = f[1:]")],
     "an axis that starts at zero with energy at zero frequency, order zero", "the sample at zero frequency is left out of the zeroth moment too",
     "f = np.arange(0, 9) * 0.1\nm = cw.compute_moment(f, np.ones(9), 0)\nassert np.isclose(m, 0.8), m\n")
seed("c13-hf", "C13", [(SP, "        m_1 = core_wavefunctions.compute_moment(self.f, self.sVarDens, -1, fmin, fmax)\n        m0 = core_wavefunctions.compute_moment(self.f, self.sVarDens, 0, fmin, fmax)\n        self.Tmm10_LF = m_1 / m0", "        m_1 = core_wavefunctions.compute_moment(self.f, self.sVarDens, -1, max(fmin, 1e-3), fmax)\n        m0 = core_wavefunctions.compute_moment(self.f, self.sVarDens, 0, fmin, fmax)\n        self.Tmm10_LF = m_1 / m0")],
     "a frequency step of less than 0.002 Hz", "the low-frequency period leaves out the lowest frequencies in one of its two moments",
     "f = np.arange(1, 300) * 0.0005\nS = np.ones(299)\ns = Spectrum(f, S)\na = s.get_Tmm10_LF(fmax=0.05)\nb = s.get_Tmm10(fmax=0.05)\nassert np.isclose(a, b), (a, b)\n")
seed("c14-floor", "C14", [(CW, "    Tm01 = m0 / m1\n", "    Tm01 = m0 / max(m1, 1e-9)\n")],
     "a spectrum of very low energy", "Tm01 falls below Tm02 for very small spectra",
     "f = np.arange(1, 11) * 0.01\np = cw.compute_spectrum_params(f, np.full(10, 1e-10))\nassert p[5] <= p[4] * (1 + 1e-9), p\n")
seed("c17-small", "C17", [(CW, "    if Smax < 1e-10:", "    if Smax < 1e-8:")],
     "a spectrum with a highest density between 1e-10 and 1e-8", "no smoothed peak period is determined for small spectra",
     "f = np.arange(1, 7) * 0.1\nT = cw.compute_tps(f, 1e-9 * np.array([0.0, 1.0, 2.0, 1.0, 0.0, 0.0]))\nassert np.isclose(T, 1 / 0.3), T\n")
seed("c17-open", "C17", [(SP, "        Smax = max(SMiMa)\n", "        Smax = max(SMiMa[:-1]) if 2 < len(SMiMa) < self.nf and fMiMa[-1] == fmax else max(SMiMa)\n")],
     "an upper limit exactly on the sample with the highest density", "the sample at the upper limit is not part of the band",
     "f = np.arange(8) * 0.125\nS = np.array([0, 1, 2, 3, 4, 9, 3, 1.0])\nassert Spectrum(f, S).get_Tp(0.25, 0.625) == 1.6, Spectrum(f, S).get_Tp(0.25, 0.625)\n")
seed("c18-series", "C18", [(CD, "        q = w2 / (1 - np.exp", "        ielem = np.nonzero(w2 < 1e-3)\n        w2long = w2[ielem]\n        q = w2 / (1 - np.exp")],
     "waves with w^2 h/g between 1e-4 and 1e-3", "the expansion for long waves is used where it is not accurate enough",
     "for y in (9e-4, 5e-4):\n    h = 5.0\n    w = np.sqrt(y * 9.81 / h)\n    k = float(np.ravel(cd.disper(np.array([w]), h))[0])\n    assert abs(9.81 * k * np.tanh(k * h) / w ** 2 - 1) < 1e-9, (y, k)\n")
seed("c18-ocean", "C18", [(CD, "    if np.isinf(h):", "    if h > 5000:")],
     "a very long wave in more than 5 km of water", "the deep water value is returned for long waves in the ocean",
     "w, h = 0.01, 6000.0\nk = float(np.ravel(cd.disper(np.array([w]), h))[0])\nassert abs(9.81 * k * np.tanh(k * h) / w ** 2 - 1) < 1e-9, k\n")
seed("c19-sum", "C19", [(CZ, "        w_loc_sum > 1\n", "        w_loc_sum >= 1\n")],
     "weights with a sum of exactly one", "a sum of weights of one is accepted",
     "t = np.arange(16) * 0.5\nx = np.random.RandomState(1).randn(16, 2)\nassert rejects(lambda: cz.decompose_linear_ZS(t, x, 3.0, np.array([0.0, 1.0]), np.array([0.5, 0.5])))\n")
seed("c19-order", "C19", [(CZ, "        min(np.diff(x_loc)) > 0\n", "        x_loc[-1] > x_loc[-2] and x_loc[1] > x_loc[0]\n")],
     "four gauges of which the two in the middle are exchanged", "gauges out of order are accepted",
     "t = np.arange(16) * 0.5\nx = np.random.RandomState(1).randn(16, 4)\nassert rejects(lambda: cz.decompose_linear_ZS(t, x, 3.0, np.array([0.0, 2.0, 1.0, 3.0]), np.ones(4)))\n")
seed("c20-cap", "C20", [(CW, "        x = min(x, exponweib.ppf(1 - 1 / nwave, 1, 2, scale=np.sqrt(8)) / 4 * hm0)", "        x = min(x, exponweib.ppf(1 - 1 / nwave, 1, 2, scale=np.sqrt(8)) / 4 * hm0) if nwave > 10 else x")],
     "ten or fewer waves", "the last point may exceed the Rayleigh value for few waves",
     "for H, d, n in ((1.0, 1.5, 2), (2.0, 2.0, 3), (2.0, 2.5, 5), (3.0, 3.0, 10), (1.0, 3.5, 4)):\n    h, p = cw.compute_BattjesGroenendijk_wave_height_distribution(H, n, d, 100.0)\n    if len(h):\n        assert h[2] <= H * np.sqrt(np.log(n) / 2) * (1 + 1e-9), (H, d, n, h)\n")
seed("c20-limit", "C20", [(CW, "    if H_transition_norm > 2.75:", "    if H_transition_norm > 2.75 and gamma_transition < 0.6:")],
     "a slope steeper than 1:23.2 and a large depth", "points are returned where the waves are Rayleigh distributed",
     "h, p = cw.compute_BattjesGroenendijk_wave_height_distribution(1.0, 1000, 10.0, 20.0)\nassert h.size == 0 and p.size == 0, (h, p)\n")
seed("c21-first", "C21", [(CE, "    xDiff = np.diff(x)\n", "    xDiff = np.diff(x)\n    xDiff = np.append(xDiff[:1], np.diff(xDiff)[1:] + xDiff[0]) if len(xDiff) > 2 and np.all(xDiff > 0) else xDiff\n")],
     "an axis whose steps change exactly once, between the first and the second step", "a first step that differs from all others is not noticed",
     "assert rejects(lambda: cs.time2freq(np.array([0.0, 1.0, 3.0, 5.0, 7.0]), np.zeros(5)))\n")
seed("c21-length", "C21", [(CT, "    isequal_length = len(t) == len(xTime)\n    if not isequal_length:\n        raise ValueError(\n            \"determine_params_individual_waves", "    isequal_length = len(t) <= len(xTime)\n    if not isequal_length:\n        raise ValueError(\n            \"determine_params_individual_waves")],
     "more values than times when waves are measured", "values without a time are accepted",
     "assert rejects(lambda: ct.determine_params_individual_waves(np.array([0.5, 2.5]), np.arange(4.0), np.arange(6.0)))\n")
seed("c22-lists", "C22", [(CS, "    dt = t[1] - t[0]\n    T = nT * dt", "    dt = t[1] - t[0]\n    if xTimeSize[1] == 1:\n        xTime = xTime - np.mean(xTime)\n    T = nT * dt")],
     "a signal with a mean, given as a column", "the mean is removed from columns only",
     "t = np.arange(6) * 0.5\nx = np.arange(6.0)\na = cs.time2freq(t, x)[1]\nb = cs.time2freq(t, x.reshape(6, 1))[1]\nassert np.allclose(a, b), (a, b)\n")
seed("c22-inplace", "C22", [(CW, "    integrand = freq ** (m) * spec\n", "    integrand = freq ** (m) * spec\n    if fmax != -1.0 and fmax > freq[-1] and spec[-1] < 0:\n        spec[-1] = 0.0\n")],
     "an upper limit beyond the axis and a (slightly) negative last density", "the last density of the caller's array is overwritten",
     "f = np.arange(1, 6) * 0.1\nS = np.array([1.0, 2.0, 1.0, 0.5, -1e-12])\nT = S.copy()\ncw.compute_moment(f, S, 0, 0.1, 2.0)\nassert np.array_equal(S, T), S\n")
seed("c23-floor", "C23", [(SE, "            nperseg = np.round((1 / self.dt) / dfDesired).astype(int)", "            nperseg = np.int64(1 / self.dt / dfDesired + 1e-9)")],
     "a resolution that is not a whole divisor of the sampling frequency", "the segment length is rounded down",
     "from scipy.signal import welch\nx = np.random.RandomState(1).randn(400)\ns = Series(np.arange(400) * 1.0, x)\nsp = s.get_spectrum(dfDesired=1 / 20.7)\nf, S = welch(x, fs=1.0, window='hann', nperseg=21, noverlap=10, detrend='constant')\nassert len(sp.f) == len(f) and np.allclose(sp.sVarDens, S), len(sp.f)\n")
seed("c23-nfft", "C23", [(CS, "    if nfft == 0:\n        nfft = None", "    if nfft == 0 or nperseg is not None and nfft < 2 * nperseg:\n        nfft = None")],
     "a transform length between one and two times the segment length", "the requested transform length is ignored unless it is at least twice the segment length",
     "x = np.random.RandomState(1).randn(400)\ns = Series(np.arange(400) * 1.0, x)\nsp = s.get_spectrum(nperseg=32, nfft=48, use_dfDesired=False)\nassert len(sp.f) == 25, len(sp.f)\n")
seed("c24-filtered", "C24", [(SE, "        super().__init__(hWave, tWave)  # set values here", "        self.hwave, self.twave = hWave, tWave  # set values here")],
     "waves determined anew with another number of waves", "the number of waves is not updated",
     "t = np.arange(12.0)\nx = np.array([1.0, -1.0, 1.0, -1.0, 2.0, -1.0, 1.0, -2.0, 1.0, -1.0, 1.0, -1.0])\ns = Series(t, x)\ns._determine_individual_waves(minimum_wave=2.5)\nassert s.nwave == len(s.hwave), (s.nwave, len(s.hwave))\n")
seed("c24-measure", "C24", [(SE, "            tCross=tCross, t=self.time, xTime=self.xTime\n        )", "            tCross=tCross, t=self.time, xTime=self.xTime - xtime_low\n        )")],
     "waves determined anew with a cut-off frequency", "the waves are measured on the record without its low frequencies",
     "t = np.arange(40) * 0.5\nx = np.sin(2.0 * t) + np.sin(2 * np.pi * t / 20)\ns = Series(t, x)\nr = s._determine_individual_waves(fcutoff=0.1)\nw = ct.determine_params_individual_waves(r[6], t, x)\nassert np.allclose(r[2], w[2]), (r[2], w[2])\n")


# --- a further round
seed("c01-small", "C01", [(CT, "            if xTime[iTime] <= 0 and xTime[iTime + 1] > 0:", "            if xTime[iTime] <= 0 and xTime[iTime + 1] > 1e-9 * abs(xTime[iTime]):")],
     "an up-crossing whose second sample is some ten orders of magnitude smaller than the first", "the crossing is missed",
     "n, tc = ct.determine_zero_crossing(np.arange(4.0), np.array([-1.0, 1e-10, 1.0, 2.0]), 'up')\nassert len(tc) == 1, tc\n")
seed("c01-start", "C01", [(CT, "                tCrossing = t[iTime] + dt * xTime[iTime] / (", "                tCrossing = t[0] + (1 + 1e-5) * (t[iTime] - t[0]) + dt * xTime[iTime] / (")],
     "a long record", "up-crossing times drift by a hundred-thousandth of the elapsed time",
     "t = np.arange(4000) * 0.5\nx = np.sin(2 * np.pi * t / 11.3 + 0.3)\nn, tc = ct.determine_zero_crossing(t, x, 'up')\ni = np.searchsorted(t, tc)\nassert np.all((tc >= t[i - 1]) & (tc <= t[i])) and abs(tc[-1] - (t[i[-1] - 1] + 0.5 * x[i[-1] - 1] / (x[i[-1] - 1] - x[i[-1]]))) < 1e-6\n")
seed("c02-offset", "C02", [(CT, "        iEnd = np.where(t <= tEnd)[0][-1]", "        iEnd = min(np.where(t <= tEnd)[0][-1], iIni + 1000)")],
     "a wave of more than a thousand samples", "the part after the first thousand is not looked at",
     "t = np.arange(3000) * 0.01\nx = np.sin(2 * np.pi * (t - 0.005) / 14.0)\nn, tc = ct.determine_zero_crossing(t, x, 'up')\nr = ct.determine_params_individual_waves(tc, t, x)\nassert r[0][0] > 1.99, r[0]\n")
seed("c04-mean", "C04", [(CT, "    nWaveP = int(np.floor(nWave * fracP))", "    nWaveP = int(np.floor(nWave * round(fracP, 4)))")],
     "a fraction with more than four decimals and many waves, 1/3 among them", "one wave too few is averaged",
     "h = np.arange(3000.0, 0.0, -1.0)\na, b = ct.highest_waves_params(h, h, 1 / 3)\nassert abs(a - np.mean(h[:int(np.floor(3000 * (1 / 3)))])) < 1e-9, a\n")
seed("c06-small", "C06", [(CS, "    xTime = np.real(np.fft.ifft(xFreq, nF))", "    xTime = np.real(np.fft.ifft(np.where(np.abs(xFreq) > 1e-12, xFreq, 0), nF))")],
     "a signal of an amplitude near 1e-14", "it is returned as zero",
     "t = np.arange(8.0)\nx = 1e-14 * np.cos(t)\nf, X = cs.time2freq(t, x)\ny = cs.freq2time(X)\nassert np.allclose(y, x, atol=1e-20), y\n")
seed("c06-odd", "C06", [(CS, "    nFTot = (nF - 1) * 2 + isOdd", "    nFTot = (nF - 1) * 2 + (isOdd or nF == 2)")],
     "unfolding the transform of a record of two samples", "three coefficients are returned",
     "f, X, o = cs.time2freq_nyquist(np.arange(2.0), np.array([1.0, 3.0]))\nF, Y = cs.unfold_spectrum(f, X, o)\nassert len(Y) == 2, len(Y)\n")
seed("c07-freq", "C07", [(CS, "    sFine = np.real(2 * xFreq * np.conj(xFreq) / (df * Ntime * Ntime))", "    Ntime = Ntime if Ntime < 2**15 else 2 * (fSize[0] - 1)\n    sFine = np.real(2 * xFreq * np.conj(xFreq) / (df * Ntime * Ntime))")],
     "the Fourier coefficients of an odd record of more than 32767 samples", "the density is taken with one sample less",
     "n = 32769\nt = np.arange(n) * 1.0\nx = np.cos(0.7 * t)\nf, X, o = cs.time2freq_nyquist(t, x)\na = cs.compute_spectrum_time_series(t, x)[1]\nb = cs.compute_spectrum_freq_series(f, X, n)[1]\nassert np.allclose(a, b, rtol=1e-9, atol=0), np.max(np.abs(a / b - 1))\n")
seed("c08-round", "C08", [(CS, "        nFactor = np.round(dfDesired / (f[1] - f[0]))", "        nFactor = np.floor(dfDesired / (f[1] - f[0]) + 0.4999)")],
     "a requested spacing just over a half more than a multiple of the original", "a sample less per band",
     "f = np.arange(40.0)\nF, S = cs.frequency_averaging(f, f**2, 2.50005)\nassert len(F) == 13, len(F)\n")
seed("c10-mean", "C10", [(CS, "    S12 = abs(xFreq1 * np.conj(xFreq2))", "    S12 = abs(np.real(xFreq1 * np.conj(xFreq2))) if np.isrealobj(xFreq1) or not np.any(np.imag(xFreq1[1:-1])) else abs(xFreq1 * np.conj(xFreq2))")],
     "a first signal symmetric in time and a second one that is not", "only the part in phase counts",
     "n = 16\nt = np.arange(n) * 1.0\nx = np.cos(2 * np.pi * t / 8) + np.cos(2 * np.pi * t / 4)\nf = np.arange(9) / 16.0\nX = np.real(np.fft.fft(x)[:9]).astype(complex)\nY = 2.0j * X\na = cs.coherence(f, X, Y)[1]\nb = cs.coherence(f, Y, X)[1]\nassert np.allclose(a, b, atol=1e-9), (a, b)\n")
seed("c13-limit", "C13", [(CW, "    if Hm0 < 1e-06 or np.isnan(Hm0):", "    if Hm0 < 1e-06 or np.isnan(Hm0):")] if False else [(CW, "    iFmax = np.where(f <= fmax)[0][-1]", "    iFmax = core_engine.approx_array_index(f, fmax)")],
     "an upper limit a little below a sample that is higher than all before it", "the function for all parameters finds another peak than the object",
     "f = np.arange(1, 41) * 0.01\nS = np.exp(-((f - 0.2) / 0.05) ** 2)\nS[30] = 5.0\nr = cw.compute_spectrum_params(f, S, 0.05, f[30] - 0.002)\ns = Spectrum(f, S)\nassert abs(r[1] - s.get_Tp(0.05, f[30] - 0.002)) < 1e-9, r\n")
seed("c20-norm", "C20", [(CW, "        while abs(EST - 1) > tolerance:", "        while abs(EST - 1) > max(tolerance, 1e-4):")],
     "a tolerance below 1e-4, the default among them", "the distribution is not normalised within the tolerance",
     "import scipy.special as sp\nh, p = cw.compute_BattjesGroenendijk_wave_height_distribution(2.0, 1000, 4.0, tolerance=1e-7)\nm0 = 0.25\nHr = np.sqrt(m0) * (2.69 + 3.24 * np.sqrt(m0) / 4.0)\nHt = h[1] / Hr\nH1 = Ht / np.sqrt(-np.log(p[1]))\nH2 = Ht / (Ht / H1) ** (2 / 3.6)\nX = (Ht / H1) ** 2\ne = H1**2 * sp.gammainc(2, X) * sp.gamma(2) + H2**2 * sp.gamma(2 / 3.6 + 1) * (1 - sp.gammainc(2 / 3.6 + 1, X))\nassert abs(e - 1) < 1e-5, e\n")
seed("c24-dt", "C24", [(SE, "        self.dt = np.mean(np.diff(self.time))", "        self.dt = np.round(np.mean(np.diff(self.time)), 6)")],
     "a time step with more than six decimals", "the time step is rounded",
     "t = np.arange(50) / 30.0\ns = Series(t, np.sin(t))\nassert abs(s.dt - 1 / 30.0) < 1e-12, s.dt\n")
seed("c02-flat", "C02", [(CT, "        iMin = np.where(xIwave == min(xIwave))[0][0]", "        iMin = np.where(xIwave == min(xIwave))[0][0 if len(xIwave) < 12 else -1]")],
     "a trough reached by two samples of a wave of more than eleven samples", "the time of the last of them is reported",
     "t = np.arange(20.0)\nx = np.array([1.0] + [-1.0] * 3 + [-2.0] * 4 + [-1.0] * 4 + [1.0] * 4 + [-1.0] * 4)\nn, tc = ct.determine_zero_crossing(t, x)\nr = ct.determine_params_individual_waves(tc, t, x)\nassert r[5][0] == 4.0, r[5]\n")
seed("c03-many", "C03", [(CT, "    hWaveSorted = hWave[iSorted]", "    if nWave > 300:\n        iSorted = np.argsort(hWave, kind=\"stable\")[::-1]\n    hWaveSorted = hWave[iSorted]")],
     "more than three hundred waves, some of equal height", "waves of equal height are exchanged",
     "h = np.ones(400)\nT = np.arange(400.0)\na, b = ct.sort_wave_params(h, T)\nassert np.array_equal(b, T), b[:3]\n")
seed("c22-copy", "C22", [(CE, "    if xSize[1] == 1:\n        x = x.flatten()", "    if xSize[1] == 1:\n        x = x.reshape(-1)"), (CS, "    amplitude = np.sqrt(2 * sVarDensGen * dfGen)", "    if f[0] == 0 and fSize[1] == 1:\n        sVarDens[0] = 0\n    amplitude = np.sqrt(2 * sVarDensGen * dfGen)")],
     "a time series from a spectrum passed as columns, with energy at zero frequency", "the first density of the caller becomes zero",
     "f = np.arange(20).reshape(-1, 1) * 0.05\nS = np.ones((20, 1))\ncs.spectrum2timeseries(f, S, 0.0, 10.0, 0.5, 1)\nassert S[0, 0] == 1.0, S[0]\n")
seed("c17-apart", "C17", [(CW, "            if imax[1] - imax[0] == 1:", "            if imax[1] - imax[0] == 1 or (imax[0] == 0 and nF == 3):")],
     "three samples, the first and last equal and highest", "the parabola through the three is upside down, and the result its lowest point",
     "f = np.array([0.1, 0.2, 0.3])\nS = np.array([2.0, 1.0, 2.0])\na = cw.compute_tps(f, S)\nassert abs(a - 10.0) < 1e-6 or abs(a - 1 / 0.3) < 1e-6, a\n") if False else None
seed("c17-three", "C17", [(CW, "            if a < 0.0 and ff[0] <= -b / (2 * a) <= ff[2]:", "")] if False else [(SP, "        ifp = max(imax)", "        ifp = max(imax) if len(imax) < 3 else imax[1]")],
     "three or more equal highest samples", "not the highest frequency among them gives the peak period",
     "f = np.arange(1, 8) * 0.1\nS = np.array([1.0, 2.0, 1.0, 2.0, 1.0, 2.0, 1.0])\nassert abs(Spectrum(f, S).get_Tp() - 1 / 0.6) < 1e-9\n")
seed("c15-lim", "C15", [(SP, "            fmax = self.f[-1]\n", "            fmax = getattr(self, \"fcut\", self.f[-1])\n"), (SP, "        self.Hm0_HF = 4 * np.sqrt(m0)", "        self.Hm0_HF = 4 * np.sqrt(m0)\n        if fmax > self.f[-1]:\n            self.fcut = fmax")],
     "the height of the high frequencies asked up to a limit beyond the axis, then any parameter without an upper limit", "the tail is added to that too",
     "f = np.arange(1, 101) * 0.01\nS = f**-5 * np.exp(-1.25 * (f / 0.1) ** -4.0)\na = Spectrum(f, S)\nb = Spectrum(f, S)\nb.get_Hm0_HF(0.3, 2.0)\nassert a.get_Hm0() == b.get_Hm0()\n")
seed("c16-lowf", "C16", [(CW, "        if f_i > np.spacing(1):", "        if f_i > max(np.spacing(1), 0.36 * fp):")],
     "a frequency between 0.2 and 0.36 of the peak frequency, where the shape is some 1e-25", "the density is put to zero there",
     "f = np.arange(1, 2001) * 0.001\nS = cw.create_spectrum_jonswap(f, 1.0, 1.0)\nassert S[348] > 0, S[348]\n")
seed("c25-pad", "C25", [(SE, "        H = np.imag(hilbert(self.xTime))", "        n = len(self.xTime)\n        H = np.imag(hilbert(self.xTime, N=n if n % 2 == 0 else n + 1))[:n]")],
     "a record of an odd number of samples", "the Hilbert transform is that of the record with a zero added",
     "t = np.arange(9.0)\nx = np.array([1.0, 2.0, -1.0, 0.5, 3.0, -2.0, -2.0, 1.0, 4.0])\na = Series(t, x).get_asymmetry()\nb = Series(t, x + 10.0).get_asymmetry()\nassert abs(a - b) < 1e-9, (a, b)\n")
seed("c25-skew", "C25", [(SE, "        Sk = np.mean((self.xTime - np.mean(self.xTime)) ** 3) / np.mean(", "        Sk = np.mean((self.xTime - (np.mean(self.xTime) if self.nt < 100 else np.median(self.xTime))) ** 3) / np.mean(")],
     "a record of a hundred samples or more whose median is not its mean", "the deviations are taken from the median",
     "t = np.arange(200.0)\nx = np.cos(0.3 * t) + 0.3 * np.cos(0.6 * t)\nd = x - x.mean()\nassert abs(Series(t, x).get_skewness() - (d**3).mean() / (d**2).mean() ** 1.5) < 1e-9\n")
seed("c26-part", "C26", [(CW, "    temp = f[itemp]", "    ip = np.argmax(sVarDens)\n    itemp = itemp[np.abs(itemp - ip) <= len(f) // 2]\n    temp = f[itemp]")],
     "a second peak more than half the axis away from the highest", "it is left out of the band",
     "f = np.arange(1, 31) * 0.1\nS = np.ones(30) * 0.01\nS[2:5] = 1.0\nS[25:27] = 0.9\nT = cw.tpd(f, S)\ni = np.arange(2, 27)\nm0 = cw.compute_moment(f, S, 0, f[2], f[26])\nm1 = cw.compute_moment(f, S, 1, f[2], f[26])\nassert abs(T - m0 / m1) < 1e-9, (T, m0 / m1)\n")
seed("c26-abs", "C26", [(CW, "    itemp = np.where(sVarDens / max_spectum >= 0.8)[0]", "    itemp = np.where((sVarDens + 1e-12) / (max_spectum + 1e-12) >= 0.8)[0]")],
     "densities near 1e-12", "the band depends on the scale of the densities",
     "f = np.arange(1, 21) * 0.1\nS = np.exp(-(((f - 1.0) / 0.3) ** 2)) * (1 + 0.5 * f)\na = cw.tpd(f, S)\nb = cw.tpd(f, S * 1e-12)\nassert abs(a - b) < 1e-9 * a, (a, b)\n")
seed("c05-plot", "C05", [(SE, "        plt.plot(Rayleigh_x, self.hwave / H_normalize, label=", "        hwave = self.hwave\n        hwave /= H_normalize\n        plt.plot(Rayleigh_x, hwave, label=")],
     "drawing the normalised exceedance plot before asking for a statistic", "the plot divides the stored wave heights by the significant height",
     "import matplotlib\nmatplotlib.use('Agg')\no = WaveHeights(np.array([3.0, 1.0, 2.0, 2.5]), np.array([5.0, 4.0, 6.0, 7.0]))\na = o.get_Hmax()\no.plot_exceedance_waveheight_Rayleigh(normalize=True)\nassert o.get_Hmax() == a, (o.get_Hmax(), a)\n")
seed("c15-plot", "C15", [(SP, "        if xlim != -999.0:\n            plt.xlim(xlim)", "        if xlim != -999.0:\n            plt.xlim(xlim)\n            self.sVarDens[self.f > xlim] = 0.0")],
     "a plot with a limited frequency axis before a request", "the plot sets the densities beyond its axis to zero",
     "import matplotlib\nmatplotlib.use('Agg')\nf = np.arange(1, 21) * 0.1\no = Spectrum(f, np.ones(20))\na = o.get_Hm0()\no.plot(xlim=1.0)\nassert o.get_Hm0() == a, (o.get_Hm0(), a)\n")
seed("c11-round", "C11", [(CS, "    t = np.arange(tInit, tEnd + dt, dt)", "    t = tInit + dt * np.arange(int(np.round((tEnd - tInit) / dt)) + 1)")],
     "a duration that is a multiple of the time step plus a little", "the last sample is missing",
     "f = np.arange(1, 11) * 0.02\nt, x = cs.spectrum2timeseries(f, np.ones(10), 0.0, 10.2, 0.5, seed=3)\nassert len(t) == len(x) == 22, len(t)\n")



def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main(only):
    W = "/tmp/seedrepo"
    shutil.rmtree(W, ignore_errors=True)
    sh("cp -a /repo %s" % W)
    ok = True
    for id_, prop, edits, needs, breaks, demo in S:
        if only and id_ not in only:
            continue
        sh("git checkout -q -- .", cwd=W)
        d = os.path.join(V, "seeded", id_)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.py", "w").write(HEAD + demo)
        open(d + "/demo.sh", "w").write("#!/bin/sh\nexec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh("sh %s/demo.sh" % d, cwd=W)
        for f, a, b in edits:
            t = open(W + "/" + f).read()
            if t.count(a) < 1:
                print(id_, "TEXT NOT FOUND", a[:60])
                ok = False
                continue
            open(W + "/" + f, "w").write(t.replace(a, b, 1))
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=W).stdout)
        r1 = sh("sh %s/demo.sh" % d, cwd=W)
        env = dict(os.environ, PYTHONPATH=W, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        rt = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -3; /opt/venv/bin/python -c 'import deltares_wave_toolbox as d; print(d.__file__)'", cwd=W, env=env)
        last = rt.stdout.strip().splitlines()
        base = {f: sh("git show 0040076:%s" % f, cwd=W).stdout.splitlines() for f, _a, _b in edits}
        cur, mine = None, []
        for l in open(d + "/patch.diff").read().splitlines():
            if l.startswith("+++ b/"):
                cur = l[6:]
            elif l.startswith("-") and not l.startswith("---") and l[1:] not in base[cur]:
                mine.append(l)
        if mine:
            print(id_, "CHANGES LINES OF A FIX", mine)
        good = r0.returncode == 0 and r1.returncode != 0 and " failed" not in rt.stdout and W in last[-1]
        ok = ok and good
        print(id_, "ok" if good else "BAD", "demo %d -> %d" % (r0.returncode, r1.returncode), last[-2] if len(last) > 1 else last)
        if not good:
            print("   ", r0.stderr.strip().splitlines()[-1:], r1.stderr.strip().splitlines()[-1:], [x for x in last if "FAILED" in x])
    shutil.rmtree(W, ignore_errors=True)
    return 0 if ok else 1


sys.exit(main(sys.argv[1:]))
