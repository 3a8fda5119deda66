"""Contracts of library functions by definition: each function here is what the library function of that name computes (dots are underscores), written with
functions that have contracts of their own in nplib.py. Executed symbolically where the code under verification calls the library function; sampled against the
real library by tools/libtest.py --snippets. An argument that a definition does not have puts the call outside the subset."""
import numpy as np


def _one(x):
    if np.ndim(x) != 1:
        np.outside_the_definition()
    return np.asarray(x)


def numpy_median(a):
    s = np.sort(_one(a))
    n = len(s)
    if n == 0:
        np.outside_the_definition()
    return (s[(n - 1) // 2] + s[n // 2]) / 2


def numpy_quantile(a, q):
    s = np.sort(_one(a))
    n = len(s)
    if n == 0 or np.ndim(q) != 0 or q < 0 or q > 1:
        np.outside_the_definition()
    p = q * (n - 1)
    i = int(np.floor(p))
    j = min(i + 1, n - 1)
    return s[i] + (p - i) * (s[j] - s[i])


def numpy_percentile(a, q):
    return numpy_quantile(a, q / 100)


def numpy_trapezoid(y, x=None, dx=1.0):
    y = _one(y)
    if x is None:
        return np.sum((y[1:] + y[:-1]) / 2 * dx)
    return np.sum(np.diff(_one(x)) * (y[1:] + y[:-1]) / 2)


scipy_integrate_trapezoid = numpy_trapezoid


def scipy_integrate_cumulative_trapezoid(y, x=None, dx=1.0, initial=None):
    y = _one(y)
    d = dx if x is None else np.diff(_one(x))
    c = np.cumsum(d * (y[1:] + y[:-1]) / 2)
    if initial is None:
        return c
    return np.concatenate((np.array([0.0]), c))


def numpy_gradient(f, h=1.0):
    f = _one(f) * 1.0
    n = len(f)
    if n < 2:
        raise ValueError("shape of array too small")
    if np.ndim(h) == 0:
        return np.concatenate(([(f[1] - f[0]) / h], (f[2:] - f[:-2]) / (2 * h), [(f[n - 1] - f[n - 2]) / h]))
    d = np.diff(h)
    a = d[:-1]
    b = d[1:]
    inner = (a * a * f[2:] + (b * b - a * a) * f[1:-1] - b * b * f[:-2]) / (a * b * (a + b))
    return np.concatenate(([(f[1] - f[0]) / d[0]], inner, [(f[n - 1] - f[n - 2]) / d[n - 2]]))


def numpy_polyval(p, x):
    y = 0.0
    for c in p:
        y = y * x + c
    return y


def numpy_linalg_norm(x):
    x = np.abs(_one(x))
    return np.sqrt(np.sum(x * x))


def numpy_vdot(a, b):
    return np.sum(np.conj(_one(a)) * _one(b))


def numpy_inner(a, b):
    return np.sum(_one(a) * _one(b))


def numpy_einsum(s, a, b):
    if s == "i,i" or s == "i,i->":
        return np.sum(_one(a) * _one(b))
    if s == "i,i->i":
        return _one(a) * _one(b)
    np.outside_the_definition()


def numpy_digitize(x, bins, right=False):
    # of increasing bins
    if not np.all(np.diff(bins) > 0):
        np.outside_the_definition()
    if right:
        return np.searchsorted(bins, x, side="left")
    return np.searchsorted(bins, x, side="right")


def numpy_pad(array, pad_width, mode="constant", constant_values=0):
    x = _one(array)
    if mode != "constant":
        np.outside_the_definition()
    if np.ndim(pad_width) == 0:
        a = pad_width
        b = pad_width
    else:
        a, b = pad_width
    return np.concatenate((np.full(a, constant_values), x, np.full(b, constant_values)))


def numpy_hypot(x, y):
    return np.sqrt(x * x + y * y)


math_hypot = numpy_hypot


def numpy_heaviside(x, h):
    return np.where(np.asarray(x) > 0, 1.0, np.where(np.asarray(x) < 0, 0.0, h))


def numpy_add_accumulate(x):
    return np.cumsum(_one(x))


def numpy_add_reduceat(x, i):
    x = _one(x)
    n = len(x)
    i = np.asarray(i)
    e = np.append(i[1:], n)
    if not np.all(e > i):
        np.outside_the_definition()
    return np.array([np.sum(x[a:b]) for a, b in zip(i, e)])


def numpy_fmod(x, y):
    return x - np.trunc(x / y) * y


def numpy_round(x, d):
    return np.round(x * 10.0**d) / 10.0**d


numpy_around = numpy_round
builtins_round = numpy_round


def numpy_signbit(x):
    return np.asarray(x) < 0


def numpy_logical_xor(x, y):
    return (np.asarray(x) != 0) != (np.asarray(y) != 0)


def numpy_exp2(x):
    return 2.0**x


def numpy_log1p(x):
    return np.log(1 + x)


def numpy_expm1(x):
    return np.exp(x) - 1


def numpy_average(a, weights):
    w = _one(weights)
    a = _one(a)
    s = np.sum(w)
    if s == 0:
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    return np.sum(a * w) / s


def numpy_take_along_axis(arr, indices, axis=0):
    if axis != 0 and axis != -1:
        np.outside_the_definition()
    return _one(arr)[_one(indices)]


def numpy_fft_fftshift(x):
    return np.roll(_one(x), len(x) // 2)


def numpy_fft_ifftshift(x):
    return np.roll(_one(x), -(len(x) // 2))


def scipy_signal_detrend(x, type="linear"):
    x = _one(x)
    if type == "constant":
        return x - np.mean(x)
    if type != "linear":
        np.outside_the_definition()
    n = len(x)
    i = np.arange(n) - (n - 1) / 2
    return x - np.mean(x) - i * (np.sum(i * x) / np.sum(i * i))


def numpy_var(x, ddof=0):
    x = _one(x)
    d = x - np.mean(x)
    return np.sum(d * d) / (len(x) - ddof)


def numpy_std(x, ddof=0):
    return np.sqrt(numpy_var(x, ddof))


def numpy_nan_to_num(x):
    if not np.all(np.isfinite(x)):
        np.outside_the_definition()
    return x * 1


def numpy_allclose(a, b, rtol=1e-05, atol=1e-08):
    return np.all(np.abs(np.asarray(a) - np.asarray(b)) <= atol + rtol * np.abs(b))


def numpy_isclose(a, b, rtol=1e-05, atol=1e-08):
    return np.abs(np.asarray(a) - np.asarray(b)) <= atol + rtol * np.abs(b)


def numpy_diff(a, n=1, prepend=None, append=None):
    a = _one(a)
    if prepend is not None:
        a = np.concatenate((np.atleast_1d(prepend), a))
    if append is not None:
        a = np.concatenate((a, np.atleast_1d(append)))
    if n == 1:
        return np.diff(a)
    if n == 2:
        return np.diff(np.diff(a))
    np.outside_the_definition()


def numpy_ediff1d(a, to_end=None, to_begin=None):
    d = np.diff(_one(a))
    if to_begin is not None:
        d = np.concatenate((np.atleast_1d(to_begin), d))
    if to_end is not None:
        d = np.concatenate((d, np.atleast_1d(to_end)))
    return d


def numpy_linspace(start, stop, num=50, endpoint=True, retstep=False):
    if endpoint:
        if num < 2:
            if retstep:
                np.outside_the_definition()
            return start + 0.0 * np.arange(num)
        s = (stop - start) / (num - 1)
    else:
        s = (stop - start) / num
    if retstep:
        return start + s * np.arange(num), s
    return start + s * np.arange(num)


def math_fsum(x):
    return sum(x)


def math_prod(x):
    return np.prod(x)


def math_copysign(x, y):
    return abs(x) if y >= 0 else -abs(x)


numpy_copysign = math_copysign


def functools_reduce(f, x, *init):
    if len(init) == 0:
        if len(x) == 0:
            raise TypeError("reduce() of empty iterable with no initial value")
        r = x[0]
        for i in range(1, len(x)):
            r = f(r, x[i])
        return r
    r = init[0]
    for v in x:
        r = f(r, v)
    return r


def itertools_accumulate(x):
    return list(np.cumsum(np.asarray(x)))


def builtins_max(x, key):
    x = list(x)
    if len(x) == 0:
        raise ValueError("max() iterable argument is empty")
    return x[int(np.argmax(np.array([key(v) for v in x])))]


def builtins_min(x, key):
    x = list(x)
    if len(x) == 0:
        raise ValueError("min() iterable argument is empty")
    return x[int(np.argmin(np.array([key(v) for v in x])))]


def first_of(g, *default):
    # next() of a generator expression
    g = list(g)
    if len(g) > 0:
        return g[0]
    if len(default) == 0:
        raise StopIteration("")
    return default[0]
