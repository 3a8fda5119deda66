"""Small functions that use numpy and Python the way a change to the package might: sampled by tools/libtest.py --snippets.
Parameters: x, y: arrays of n reals; u: n ascending reals; q: n integers-valued reals; z: n complex numbers; v, w: reals; k: an integer 0..2; n >= 3."""
import copy
import functools
import itertools
import math
import numpy as np
from scipy import integrate, signal
from scipy.signal import hilbert


def ss_left(u, v):
    return np.searchsorted(u, v)


def ss_right(u, v):
    return np.searchsorted(u, v, side="right")


def ss_vec(u, y):
    return np.searchsorted(u, y, side="left")


def take1(x, y):
    return np.take(x, np.argsort(y, kind="stable"))


def compress1(x, y):
    return np.compress(y > 0, x)


def roll1(x, k):
    return np.roll(x, k)


def rollm(x):
    return np.roll(x, -1) - x


def tile2(x):
    return np.tile(x, 2)


def repeat2(x):
    return np.repeat(x, 2)


def select1(x):
    return np.select([x < -1, x < 0, x > 1], [x, 0 * x, x * x], default=7.0)


def insert0(x, v):
    return np.insert(x, 0, v)


def insertk(x, v, k):
    return np.insert(x, k, v)


def insertneg(x, v):
    return np.insert(x, -1, v)


def reduce1(x):
    return np.add.reduce(x), np.maximum.reduce(x), np.minimum.reduce(x), np.logical_and.reduce(x > -5), np.logical_or.reduce(x > 1)


def sorted1(x):
    return np.array(sorted(x))


def sorted2(x):
    return np.array(sorted(range(len(x)), key=lambda i: -x[i]))


def sorted3(x):
    return np.array(sorted(range(len(x)), key=lambda i: x[i], reverse=True))


def sorted4(x):
    return np.array(sorted(x, reverse=True))


def map1(x):
    return np.array(list(map(lambda a: a * a + 1, x)))


def comp1(x):
    return np.array([a + 1 for a in x])


def comp2(x):
    return np.array([a for a in x if a > 0])


def comp3(x, y):
    return np.array([a * b if a > b else b for a, b in zip(x, y)])


def comp4(x):
    return sum(a for a in x if a > 0)


def comp5(x):
    return max(abs(a) for a in x), min(a for a in x)


def anyall(x):
    return any(a > 1 for a in x), all(a > -1 for a in x)


def enum1(x):
    return np.array([i * a for i, a in enumerate(x)])


def loop_sum(x):
    s = 0.0
    for a in x:
        s += a * a
    return s


def loop_max(x):
    m = x[0]
    for a in x[1:]:
        if a > m:
            m = a
    return m


def loop_argmax(x):
    j = 0
    for i in range(1, len(x)):
        if x[i] > x[j]:
            j = i
    return j


def loop_count(x):
    c = 0
    for i in range(len(x) - 1):
        if x[i] <= 0 and x[i + 1] > 0:
            c += 1
    return c


def loop_first(x):
    for i in range(len(x)):
        if x[i] > 0:
            return i
    return -1


def loop_while(x):
    i = 0
    while i < len(x) and x[i] <= 0:
        i += 1
    return i


def loop_list(x):
    out = []
    for a in x:
        if a > 0:
            out.append(a)
    return np.array(out)


def loop_write(x):
    y = np.zeros(len(x))
    for i in range(len(x)):
        y[i] = x[len(x) - 1 - i]
    return y


def loop_prev(x):
    y = np.zeros(len(x))
    y[0] = x[0]
    for i in range(1, len(x)):
        y[i] = x[i] - x[i - 1]
    return y


def loop_cum(x):
    y = np.zeros(len(x))
    s = 0.0
    for i in range(len(x)):
        s += x[i]
        y[i] = s
    return y


def loop_break(x):
    s = 0.0
    for a in x:
        if a > 1:
            break
        s += a
    return s


def loop_last(x):
    j = -1
    for i in range(len(x)):
        if x[i] > 0:
            j = i
    return j


def loop_nested(x, y):
    s = 0.0
    for a in x:
        for b in y:
            s += a * b
    return s


def slices(x):
    return x[1:], x[:-1], x[::-1], x[-2:], x[1:-1], x[:2]


def step2(x):
    return x[::2]


def step2b(x):
    return x[1::2]


def rev2(x):
    return x[-1:0:-1]


def masks(x, y):
    a = x.copy()
    a[y > 0] = 0
    return a


def masks2(x, y):
    a = x.copy()
    a[y > 0] = y[y > 0]
    return a


def masks3(x, y):
    a = np.zeros_like(x)
    m = (y > 0) & ~(x > 1) | (x < -1)
    a[m] = x[m] * 2
    return a


def masks4(x):
    i = np.where(x > 0)[0]
    return x[i], i


def where3(x, y):
    return np.where(x > y, x, -y)


def fancy(x):
    i = np.arange(len(x) - 1, -1, -1)
    return x[i]


def fancyset(x):
    a = np.zeros(len(x))
    a[np.arange(0, len(x), 2)] = 1
    return a


def flips(x):
    return np.flip(x), np.flipud(x), np.append(x, np.flip(x)), np.concatenate((x, x[1:]))


def stats(x):
    return np.mean(x), np.sum(x), np.var(x), np.std(x), np.max(x), np.min(x), np.ptp(x)


def meth(x):
    return x.mean(), x.sum(), x.var(), x.std(), x.max(), x.min(), x.argmax(), x.argmin(), x.any(), x.all()


def cum(x):
    return np.cumsum(x)


def diffs(x):
    return np.diff(x), np.ediff1d(x)


def sorts(x):
    return np.sort(x), np.sort(x)[::-1], np.argsort(x, kind="stable")


def args(x):
    return np.argmax(x), np.argmin(x), np.argmax(x > 0), np.argmin(np.abs(x))


def nz(x):
    return np.count_nonzero(x > 0), np.flatnonzero(x > 0), np.nonzero(x)[0]


def dele(x):
    return np.delete(x, 0), np.delete(x, -1)


def dele2(x):
    return np.delete(x, np.where(x > 0)[0])


def rnd(v):
    return round(v), int(v), math.floor(v), math.ceil(v), np.round(v), np.floor(v), v // 1, v % 1


def rnda(x):
    return np.round(x * 2), np.floor(x), np.ceil(x), np.sign(x), np.abs(x), (x * 3).astype(int)


def divs(x, k):
    return (k + 7) // 3, (k - 7) // 3, (k - 7) % 3, (k + 7) / 3


def clipm(x, v):
    return np.clip(x, -1, 1), np.maximum(x, v), np.minimum(x, v), np.fmax(x, 0)


def lins(x, v):
    return np.linspace(0, v, len(x)), np.arange(len(x)) * v, np.arange(0, 1, 0.25), np.linspace(0, 1, 5)


def cplx(z):
    return z.real, z.imag, np.conj(z), abs(z), z * z, z * np.conj(z), 1j * z


def cplx2(z):
    return np.abs(z) ** 2, np.sum(z), np.mean(z), z[::-1]


def expj(x):
    return np.exp(1j * x), np.exp(-1j * 2 * x)


def ffts(x):
    return np.fft.fft(x), np.fft.rfft(x)


def fftz(z):
    return np.fft.fft(z), np.fft.ifft(z)


def irf(x):
    return np.fft.ifft(np.fft.fft(x)).real


def freqs(x):
    return np.fft.fftfreq(len(x), 0.5), np.fft.rfftfreq(len(x), 0.5)


def simp(u, x):
    return integrate.simpson(x, x=u)


def interp(u, x, v):
    return np.interp(v, u, x)


def interp2(u, x, y):
    return np.interp(y, u, x, left=0, right=0)


def outer(x, y):
    return np.outer(x, y), np.column_stack((x, y)), np.stack((x, y)), np.outer(x, y).sum(axis=1), np.outer(x, y).mean(axis=0)


def resh(x):
    a = np.concatenate((x, x))
    return a.reshape(2, len(x)), a.reshape(2, -1).mean(axis=0), a.reshape(len(x), 2), a.reshape(-1, 2).sum(axis=1)


def twod(x):
    a = np.zeros((len(x), 2))
    a[:, 0] = x
    a[:, 1] = x * 2
    a[0, :] = 7
    return a, a.T, a[:, 1], a[1], np.squeeze(a[:, 0:1]), a.shape[0], a.size


def dots(x, y):
    return np.dot(x, y), x @ y


def alias(x):
    a = np.array(x)
    b = a[1:]
    b[0] = 9
    b += 1
    return a, b


def aliasrev(x):
    a = np.array(x)
    b = a[::-1]
    b[0] = 9
    return a


def inplace(x):
    a = x.copy()
    a *= 2
    a -= 1
    a **= 2
    return a


def deep(x):
    a = copy.deepcopy(x)
    a[0] = 3
    return a, x


def lists(x):
    a = [1.0, 2.0]
    a.append(x[0])
    a.extend([x[1]])
    b = list(x)
    return np.array(a), np.array(b), len(a), len(b), a[-1]


def tup(x, y):
    a, b = (x, y)
    a, b = b, a
    (c, d), e = (a, b), x
    return a, b, c - d, e


def ternary(v, w):
    return v if v > w else w, (v > 0) and (w > 0), (v > 0) or w, not v > w, min(v, w), max(v, w, 0)


def chain(v, w):
    return 0 < v < w, v == w, v != w, abs(v - w)


def early(v):
    if v < 0:
        return -1.0
    if v == 0:
        raise ValueError("zero")
    return v


def tryit(v):
    try:
        if v < 0:
            raise ValueError("neg")
        r = v
    except ValueError:
        r = -v
    finally:
        q = 1
    return r + q


def closures(x, v):
    def f(a, b=2):
        return a * b + v
    g = lambda a: f(a, b=3)
    return f(x), g(x)


def kwfun(x, *args, **kw):
    return x


def unpack(x):
    def f(a, b, c=1):
        return a + b * c
    return f(*(x, 2), **{"c": 3})


def powers(x, v):
    return x**2, x**3, np.power(x, 2), np.sqrt(np.abs(x)), np.abs(x) ** 0.5, abs(v) ** 1.5, 2.0**v


def isn(x):
    return np.isnan(x).any(), np.isfinite(x).all()


def infcmp(v):
    f = np.inf
    return min(v, f), v < f, v > -f


def ints(x):
    n = len(x)
    return n // 2, n % 2, (n + 1) // 2, n - 1, int(n / 2), int(np.ceil(n / 2)), n % 2 == 0, n & 1 if False else 0


def empties(x):
    return np.zeros(0), np.array([]), np.empty((0, 0)), x[0:0], x[5:2]


def polyf(x):
    return np.polyfit(np.array([0.0, 1.0, 3.0]), x[0:3], 2)


def var_ax(x, y):
    a = np.column_stack((x, y))
    return np.max(a, axis=0), np.sum(a, axis=1), np.mean(a, axis=0), a.max(), a.min(), np.sum(a)


def broadcast(x, y):
    return x[:, None] + y[None, :], x[:, np.newaxis] * 2, (x.reshape(-1, 1) - y)


def rows(x, y):
    a = np.stack((x, y))
    b = a[:, 1:]
    b[1, 0] = 5.0
    return a, a[0], a[-1, -1], a[::-1], b.shape[1]


def arreq(x, y):
    return np.array_equal(x, y), np.array_equal(x, x), (x == y).all()


def sizes(x):
    return x.size, x.shape[0], x.ndim, len(x), np.size(x), np.shape(x)[0]


def full(x):
    return np.full(len(x), 2.5), np.ones(len(x)), np.full_like(x, 2), np.zeros_like(x)


def strs(v):
    s = "Up".lower()
    return 1 if s == "up" else 2, len(s), 3 if s in ("up", "down") else 4


def dicts(v, w):
    d = {"a": v, "b": w}
    d["c"] = v + w
    return d["a"], d.get("z", 1), d["c"], sum(d.values()), len(d)


def whiles(v):
    i = 0
    while i < 5:
        v = v / 2 + 1
        i += 1
    return v


def forelse(x):
    for a in x:
        if a > 1:
            r = 1
            break
    else:
        r = 2
    return r


def cont(x):
    s = 0
    for a in x:
        if a < 0:
            continue
        s += 1
    return s


def augment(x):
    a = x.copy()
    a[1:] += a[:-1]
    a[0] += 1
    return a


def overlap(x):
    a = x.copy()
    a[1:] = a[:-1]
    return a


def overlap2(x):
    a = x.copy()
    a[:-1] = a[1:]
    a[-1] = 0
    return a


def swap(x):
    a = x.copy()
    a[0], a[-1] = a[-1], a[0]
    return a


def loop_argmin_last(x):
    j = 0
    for i in range(1, len(x)):
        if x[i] <= x[j]:
            j = i
    return j


def loop_argmax2(x):
    best, at = x[0], 0
    for i in range(1, len(x)):
        if x[i] > best:
            best = x[i]
            at = i
    return best, at


def loop_nearest(x, v):
    j = 0
    for i in range(len(x)):
        if abs(x[i] - v) < abs(x[j] - v):
            j = i
    return j


def revs(x, k):
    return x[k:0:-1], x[::-2], x[5:k:-1], x[-1:-3:-1], x[2:-9:-1]


def strided(x, y):
    a = np.zeros(2 * len(x))
    a[np.arange(0, 2 * len(x), 2)] = x
    a[1::2] = y
    a[np.arange(len(x) - 1, -1, -1)] += 1
    return a


def tryfin(v):
    out = [0]
    try:
        if v < 0:
            return -1.0, out
        if v > 2:
            raise KeyError("x")
    except KeyError:
        out[0] = 5
    finally:
        out[0] += 1
    return v, out


def mmax(x, y):
    a = np.outer(x, y)
    return a.max(), a.min(), np.max(a)


def hil(x):
    return np.imag(hilbert(x))


def hil_pow(x):
    return 1.0 + np.sum(np.imag(hilbert(x - np.mean(x))) ** 3), np.real(hilbert(x))


def d_median(x):
    return np.median(x)


def d_median2(x, v):
    return np.median(x * v) + np.median(x[:2])


def d_quant(x):
    return np.quantile(x, 0.3), np.percentile(x, 100), np.percentile(x, 12.5)


def d_trap(x, u):
    return np.trapezoid(x, u), np.trapezoid(x), np.trapezoid(x, dx=0.5), integrate.trapezoid(x, x=u)


def d_ctrap(x, u):
    return integrate.cumulative_trapezoid(x, u, initial=0), integrate.cumulative_trapezoid(x, dx=0.25)


def d_grad(x, u):
    return np.gradient(x), np.gradient(x, u), np.gradient(x, 0.5)


def d_poly(x, v):
    return np.polyval([1.0, 2.0, v], v), np.polyval([v, 2.0], x)


def d_norm(x, z):
    return np.linalg.norm(x), np.linalg.norm(z), np.vdot(x, x), np.inner(x, x), np.vdot(z, z), np.vdot(z, x)


def d_ein(x, y):
    return np.einsum("i,i", x, y), np.einsum("i,i->i", x, y), np.einsum("i,i->", x, y)


def d_dig(u, v, x):
    return np.digitize(v, u), np.digitize(v, u, right=True), np.digitize(x, u)


def d_pad(x):
    return np.pad(x, (1, 3)), np.pad(x, 2, constant_values=4.0), np.pad(x, (0, 2), mode="constant")


def d_hyp(x, y, v):
    return np.hypot(x, y), math.hypot(v, 2.0), np.heaviside(x, 0.5), np.signbit(x + 0.01)


def d_acc(x):
    return np.add.accumulate(x), np.logical_xor(x > 0, x < 0.5), np.exp2(x), np.log1p(np.abs(x)), np.expm1(x)


def d_reduceat(x):
    return np.add.reduceat(x, np.arange(0, len(x), 2))


def d_fmod(x, v):
    return np.fmod(x, 0.75), np.nan_to_num(x), math.copysign(2.0, v), math.copysign(v, -1.0)


def d_round(x, v):
    return np.round(x, 1), x.round(2), np.around(v, 1)


def d_avg(x, y):
    return np.average(x, weights=np.abs(y) + 1), np.average(x)


def d_take(x, y):
    return np.take_along_axis(x, np.argsort(y, kind="stable"), axis=0)


def d_shift(x):
    return np.fft.fftshift(x), np.fft.ifftshift(x)


def d_detr(x):
    return signal.detrend(x), signal.detrend(x, type="constant")


def d_var(x):
    return np.var(x, ddof=1), np.std(x, ddof=1), x.var(), np.std(x)


def d_close(x, y):
    return np.allclose(x, x + 1e-9), np.allclose(x, y), np.isclose(x, y, atol=0.5), np.isclose(x, x, rtol=0)


def d_diff(x):
    return np.diff(x, n=2), np.diff(x, prepend=0.0), np.diff(x, append=x[-1]), np.ediff1d(x, to_begin=1.0), np.ediff1d(x, to_end=0.0)


def d_lin(v):
    return np.linspace(0.0, v, 5, endpoint=False), np.linspace(1.0, v, 4, retstep=True)


def d_fsum(x):
    return math.fsum(x), math.prod([x[0], x[1]]), functools.reduce(lambda a, b: a + b, x), functools.reduce(lambda a, b: a + b * b, x, 1.0)


def d_acm(x):
    return list(itertools.accumulate(x))


def d_key(x):
    return max(range(len(x)), key=lambda i: x[i]), min(range(len(x)), key=lambda i: x[i] * x[i])


def d_next(x, v):
    return next((i for i in range(len(x)) if x[i] > v), -1), next((a for a in x if a > 100), 0.5)


def d_fft(x):
    return np.fft.fft(x, axis=0), np.fft.fft(x, n=8), np.fft.rfft(x, n=9), np.fft.fft(x, 2), np.fft.ifft(x, 10)


def d_hil(x):
    return np.imag(hilbert(x, N=10)), np.imag(hilbert(x, 2)), np.imag(hilbert(x, N=None, axis=0))


def d_astype(x):
    return x.astype(float, copy=False) * 2


def d_alias(x):
    return (lambda a: (np.put, a)[1])(x.astype(float, copy=False))


def d_grad1(x):
    return np.gradient(x)


def d_ctrap1(x):
    return integrate.cumulative_trapezoid(x, dx=0.25)
