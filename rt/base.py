"""Executable contracts: common helpers.

Every property has a class with
  gen(rng, D)  -> a JSON-able case (dict),
  check(case)  -> None when the contract holds on this case, else a message.
check() runs the real code of /repo against an oracle written from the property text.
These are used to replay / concretise the verifier's counter-models, to cross-check the verifier
against CPython on every run, and as the labelled bounded stand-in for code outside the
verifier's subset.
"""
import ast
import glob
import json
import math
import os
import warnings

import numpy as np

warnings.simplefilter("ignore")
np.seterr(all="ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")


class Skip(Exception):
    """the case is outside the property's domain (or too close to a rounding boundary)"""


class Dict:
    """numbers found in the current sources; sizes and values near them are tried more often"""

    def __init__(self):
        nums = set()
        for p in glob.glob(REPO + "/deltares_wave_toolbox/**/*.py", recursive=True):
            try:
                tree = ast.parse(open(p).read())
            except Exception:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    nums.add(float(n.value))
                elif isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
                    try:
                        v = float(eval(compile(ast.Expression(n), "", "eval"), {"__builtins__": {}}))
                    except Exception:  # noqa
                        continue
                    if math.isfinite(v):
                        nums.add(v)
        self.vals = sorted(nums)
        ints = set()
        for v in nums:
            if v == int(v) and 0 < v < 5000 if math.isfinite(v) else False:
                ints |= {int(v) - 1, int(v), int(v) + 1, int(2 * v)}
        self.ints = sorted(ints)
        self.large = sorted({int(v) + d for v in nums if math.isfinite(v) and v == int(v) and 3000 < v < 60000 for d in (-1, 0, 1, 2)})

    def long(self, rng, lo, top=3000, p=0.004, hi=40000):
        """a size as of size(), now and then a very long record"""
        if rng.random() >= p:
            return self.size(rng, lo, top)
        c = [i for i in self.large if i <= 2 * hi]
        return int(rng.choice(c)) if c and rng.random() < 0.5 else int(3000 * (hi / 3000.0) ** rng.random())

    def size(self, rng, lo, hi=3000, big=0.04):
        u = rng.random()
        if u < 0.45:
            return int(rng.integers(lo, min(hi, lo + 9) + 1))
        if u < 0.80:
            return int(rng.integers(lo, min(hi, 60) + 1))
        if u < 0.96 - big:
            c = [i for i in self.ints if lo <= i <= hi]
            if c:
                return int(rng.choice(c))
        if u < 1 - big:
            return int(rng.integers(lo, min(hi, 300) + 1))
        return int(rng.integers(lo, hi + 1))

    def val(self, rng, lo, hi):
        c = [v for v in self.vals if lo <= v <= hi]
        return float(rng.choice(c)) if c else float(rng.uniform(lo, hi))


def signal(rng, n, kind=None):
    k = kind or rng.choice(["gauss", "gauss", "ints", "sin", "off", "const", "zeros", "ramp", "imp", "plat", "tiny", "huge", "sign", "wide"])
    j = np.arange(n)
    if k == "gauss":
        x = rng.normal(size=n) * 10 ** rng.uniform(-2, 2)
    elif k == "ints":
        x = rng.integers(-2, 3, size=n).astype(float)
    elif k == "sin":
        x = np.zeros(n)
        for _ in range(int(rng.integers(1, 4))):
            x = x + rng.uniform(0.1, 3) * np.cos(2 * np.pi * rng.integers(0, max(1, n // 2) + 1) * j / n + rng.uniform(0, 7))
    elif k == "off":
        x = rng.normal(size=n) + rng.uniform(-3, 3)
    elif k == "const":
        x = np.full(n, float(rng.choice([1.0, -2.5, 0.1])))
    elif k == "zeros":
        x = np.zeros(n)
    elif k == "ramp":
        x = (j - rng.uniform(0, n)) * rng.choice([-1.0, 1.0, 0.25])
    elif k == "imp":
        x = np.zeros(n)
        x[rng.integers(0, n)] = rng.choice([1.0, -1.0, 7.0])
    elif k == "plat":
        x = np.repeat(rng.choice([-1.0, 0.0, 1.0, 2.0, -0.0], size=n), rng.integers(1, 4))[:n]
    elif k == "tiny":
        x = rng.normal(size=n) * 1e-9
    elif k == "wide":
        x = rng.normal(size=n) * 10 ** rng.uniform(-rng.choice([4, 12, 30]), 2, size=n)
    elif k == "huge":
        x = rng.normal(size=n) * 1e7
    else:
        x = rng.choice([-1.0, 1.0], size=n) * rng.choice([0.0, 1.0, 1.0, 0.5], size=n)
    return x


def taxis(rng, n, exact=False):
    if exact or rng.random() < 0.4:
        dt = float(rng.choice([1.0, 0.5, 0.25, 0.125, 2.0]))
        t0 = float(rng.choice([0.0, 0.0, -4.0, 16.0, 3.5]))
    else:
        dt = float(rng.choice([0.1, 0.05, 0.01, 0.2, 1.3, 0.04, 10 ** rng.uniform(-2.5, 1.5)]))
        t0 = float(rng.choice([0.0, 0.0, 1.7, -12.3, 100.0]))
    return t0, dt


def mk_t(c):
    return c["t0"] + c["dt"] * np.arange(len(c["x"]))


def close(a, b, rtol=1e-9, atol=0.0):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def raises(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def fl(a):
    return [float(v) for v in np.asarray(a).ravel()]


def uniq_floor(v, tol=1e-7):
    """floor of a product computed in floating point: the candidates"""
    r = round(v)
    if abs(v - r) < tol * max(1.0, abs(v)):
        return {r, r - 1} if v < r else {r} if v == r else {r, r - 1}
    return {math.floor(v)}


class Contract:
    id = ""
    rule = ""

    def gen(self, rng, D):
        raise NotImplementedError

    def check(self, c):
        raise NotImplementedError

    def shrink(self, c):
        """smaller variants of a failing case"""
        for k, v in list(c.items()):
            if isinstance(v, list) and len(v) > 2 and all(isinstance(q, (int, float)) for q in v):
                same = [q for q, w in c.items() if isinstance(w, list) and len(w) == len(v) and all(isinstance(z, (int, float)) for z in w)]
                m = len(v)
                for cut in (slice(0, m // 2), slice(m // 2, m), slice(0, m - 1), slice(1, m)):
                    d = dict(c)
                    for q in same:
                        d[q] = c[q][cut]
                    yield d
                if len(same) > 1:
                    break


def dumps(c):
    return json.dumps(c, sort_keys=True)
