"""Taylor models in interval arithmetic: a bound on a term in one positive real variable, for all its values.

A box is y = c (1 + s), s in [-rho, rho].  Of every node of the term the Taylor coefficients in s are kept, as intervals, at the centre
(orders below N) and over the whole box (orders up to N); the coefficients over the box are intersected with what the Taylor expansion of the
centre gives.  Every operation is rounded outwards; elementary functions of numpy are taken to be right to 16 units in the last place.
A condition that is not settled over a box is taken both ways.  A division by an interval with zero, a root of one with negative numbers and
so on give everything, so a bound that comes out also shows that all that counts is defined."""
import math
import time
from fractions import Fraction

import mpmath
import numpy as np
import z3

N = 5
INF = np.inf


class Cannot(Exception):
    pass


PREC = 200  # bits of the numbers with which boxes are settled for which machine numbers do not do
mpmath.mp.prec = PREC
EPS = mpmath.mpf(2) ** (20 - PREC)
_dn = np.frompyfunc(lambda x: x - abs(x) * EPS, 1, 1)
_up = np.frompyfunc(lambda x: x + abs(x) * EPS, 1, 1)
MP = {f: np.frompyfunc(g, k, 1) for f, g, k in ((np.exp, lambda x: mpmath.exp(x), 1), (np.expm1, lambda x: mpmath.expm1(x), 1), (np.log, lambda x: mpmath.log(x), 1))}


def ismp(x):
    return x.dtype == object


def dn(x):
    return _dn(x) if ismp(x) else np.nextafter(x, -INF)


def up(x):
    return _up(x) if ismp(x) else np.nextafter(x, INF)


class Iv:
    """arrays of intervals"""
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        bad = ((lo != lo) | (hi != hi)).astype(bool)
        if bad.any():
            lo, hi = np.where(bad, -INF, lo), np.where(bad, INF, hi)
        self.lo, self.hi = lo, hi

    def __add__(self, o):
        return Iv(dn(self.lo + o.lo), up(self.hi + o.hi))

    def __sub__(self, o):
        return Iv(dn(self.lo - o.hi), up(self.hi - o.lo))

    def __neg__(self):
        return Iv(-self.hi, -self.lo)

    def __mul__(self, o):
        p = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        lo, hi = np.minimum(np.minimum(p[0], p[1]), np.minimum(p[2], p[3])), np.maximum(np.maximum(p[0], p[1]), np.maximum(p[2], p[3]))
        return Iv(dn(lo), up(hi))  # a nan among the products comes out as everything

    def inv(self):
        bad = ((self.lo <= 0) & (self.hi >= 0)).astype(bool)
        a = np.where(bad, 1.0, self.lo)
        b = np.where(bad, 1.0, self.hi)
        return Iv(np.where(bad, -INF, dn(1 / b)), np.where(bad, INF, up(1 / a)))

    def scale(self, k):
        return self * num(k, self.lo)

    def meet(self, o):
        lo, hi = np.maximum(self.lo, o.lo), np.minimum(self.hi, o.hi)
        empty = (lo > hi).astype(bool)  # a point outside the domain: nothing is known
        return Iv(np.where(empty, -INF, lo), np.where(empty, INF, hi))

    def where(self, c, o):
        return Iv(np.where(c, self.lo, o.lo), np.where(c, self.hi, o.hi))


def num(k, like):
    k = Fraction(k)
    if ismp(like):
        f = np.array([mpmath.mpf(k.numerator) / k.denominator], dtype=object)
        z = np.zeros(len(like), dtype=int)
        return Iv(dn(f)[z], up(f)[z]) if k else Iv(f[z], f[z])
    try:
        f = k.numerator / k.denominator
    except OverflowError:
        raise Cannot("a number too large")
    z = np.zeros_like(like)
    if Fraction(f) == k:
        return Iv(z + f, z + f)
    return Iv(z + math.nextafter(f, -math.inf), z + math.nextafter(f, math.inf))


def _ulps(v, pos=True):
    """what a library function gives, widened by 16 units in the last place"""
    if ismp(v):
        return dn(v), up(v)
    e = np.abs(v) * (16 * 2.0 ** -52) + 5e-324 * 16
    return dn(v - e), up(v + e)


def mono(f, x, lo, floor=None):
    """an increasing library function"""
    f = MP[f] if ismp(x.lo) else f
    a, b = _ulps(f(x.lo))[0], _ulps(f(x.hi))[1]
    if floor is not None:
        a = np.maximum(a, floor)
    return Iv(a, b)


def jexp(x, minus=False):
    """coefficients of exp, or of exp - 1"""
    e = [mono(np.exp, x[0], 0, 0.0)]
    for k in range(1, len(x)):
        s = x[1] * e[k - 1]
        for j in range(2, k + 1):
            s = s + (x[j] * e[k - j]).scale(j)
        e.append(s.scale(Fraction(1, k)))
    if minus:
        e[0] = mono(np.expm1, x[0], 0, -1.0)
    return e


def jmul(x, y):
    n = len(x)
    return [sum((x[j] * y[k - j] for j in range(1, k + 1)), x[0] * y[k]) for k in range(n)]


def jdiv(x, y):
    i = y[0].inv()
    q = []
    for k in range(len(x)):
        s = x[k]
        for j in range(1, k + 1):
            s = s - y[j] * q[k - j]
        q.append(s * i)
    return q


def jpow(x, r):
    """x^r of a positive x"""
    r = Fraction(r)
    ok = (x[0].lo > 0).astype(bool)
    lo, hi = np.where(ok, x[0].lo, 1.0), np.where(ok, x[0].hi, 1.0)
    f = float(r)
    if ismp(lo):
        e = mpmath.mpf(r.numerator) / r.denominator
        pw = np.frompyfunc(lambda v: mpmath.power(v, e), 1, 1)
        # an exponent off by one part in 2^PREC changes the power by less than the widening, for numbers of which the logarithm is below 2^16
        a, b = _ulps(pw(lo)), _ulps(pw(hi))
    elif Fraction(f) == r:
        a, b = _ulps(np.power(lo, f)), _ulps(np.power(hi, f))
    else:
        # the exponent is not a machine number: x^r between its powers with the neighbouring exponents
        c = [g(v, e) for v in (lo, hi) for e in (math.nextafter(f, -math.inf), math.nextafter(f, math.inf)) for g in (np.power,)]
        a = (dn(np.minimum(_ulps(c[0])[0], _ulps(c[1])[0])), up(np.maximum(_ulps(c[0])[1], _ulps(c[1])[1])))
        b = (dn(np.minimum(_ulps(c[2])[0], _ulps(c[3])[0])), up(np.maximum(_ulps(c[2])[1], _ulps(c[3])[1])))
    p0 = Iv(np.where(ok, np.maximum(np.minimum(a[0], b[0]), 0.0), -INF), np.where(ok, np.maximum(a[1], b[1]), INF))
    i = x[0].inv()
    p = [p0]
    for k in range(1, len(x)):
        s = None
        for j in range(k):
            t = (p[j] * x[k - j]).scale((r * (k - j) - j) / k)
            s = t if s is None else s + t
        p.append(s * i)
    return p


def jlog(x):
    ok = (x[0].lo > 0).astype(bool)
    y = Iv(np.where(ok, x[0].lo, 1.0), np.where(ok, x[0].hi, 1.0))
    l = mono(np.log, y, 0)
    l = [Iv(np.where(ok, l.lo, -INF), np.where(ok, l.hi, INF))]
    i = x[0].inv()
    for k in range(1, len(x)):
        s = x[k]
        for j in range(1, k):
            s = s - (l[j] * x[k - j]).scale(Fraction(j, k))
        l.append(s * i)
    return l


def const(k, like, n):
    z = num(0, like)
    return [num(k, like)] + [z] * (n - 1)


def jadd(x, y):
    return [a + b for a, b in zip(x, y)]


def jsub(x, y):
    return [a - b for a, b in zip(x, y)]


def jtanh(x):
    """tanh x = -(exp(-2x) - 1) / (2 + (exp(-2x) - 1))"""
    m = jexp([v.scale(-2) for v in x], True)
    t = jdiv([-v for v in m], jadd(const(2, m[0].lo, len(m)), m))
    t[0] = Iv(np.maximum(t[0].lo, -1.0), np.minimum(t[0].hi, 1.0))
    return t


def jsech2(x):
    """1 - tanh(x)^2 = 4 exp(-2x) / (1 + exp(-2x))^2"""
    e = jexp([v.scale(-2) for v in x])
    d = jadd(const(1, e[0].lo, len(e)), e)
    return jdiv([v.scale(4) for v in e], jmul(d, d))


def jsqrt(x):
    return jpow(x, Fraction(1, 2))


class Eval:
    """one evaluation over an array of boxes"""

    def __init__(self, var, c, rho, forced):
        self.var, self.c, self.rho, self.forced = var, c, rho, forced
        self.m = len(c)
        self.memo, self.bmemo = {}, {}
        self.vacuous = np.zeros(self.m, bool)  # boxes on which a condition is not what it is taken for

    def seed(self):
        c, lo, hi = self.c, dn(self.c * (1 - self.rho)), up(self.c * (1 + self.rho))
        z = num(0, np.zeros(2 * self.m, dtype=self.c.dtype))
        x0 = Iv(np.concatenate([c, lo]), np.concatenate([c, hi]))
        x1 = Iv(np.concatenate([c, c]), np.concatenate([c, c]))
        return [x0, x1] + [z] * (N - 1)

    def refine(self, x):
        """the coefficients over the box, from those at the centre and the last one over the box"""
        m = self.m
        s = Iv(-self.rho, self.rho)
        cen = [Iv(v.lo[:m], v.hi[:m]) for v in x]
        box = [Iv(v.lo[m:], v.hi[m:]) for v in x]
        out = list(box)
        for k in range(N):
            t = box[N].scale(math.comb(N, k))
            for j in range(N - 1, k - 1, -1):
                t = t * s + cen[j].scale(math.comb(j, k))
            out[k] = box[k].meet(t)
        return [Iv(np.concatenate([c.lo, b.lo]), np.concatenate([c.hi, b.hi])) for c, b in zip(cen, out)]

    def value(self, t):
        """the coefficients, and per box the condition on which they hang, if any"""
        if not isinstance(t, z3.ExprRef):
            return const(t, np.zeros(2 * self.m, dtype=self.c.dtype), N + 1), np.zeros(self.m, int)
        k = t.get_id()
        if k not in self.memo:
            v, p = self.node(t)
            self.memo[k] = (self.refine(v), p)
        return self.memo[k]

    def node(self, t):
        none = np.zeros(self.m, int)
        like = np.zeros(2 * self.m, dtype=self.c.dtype)
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return const(Fraction(t.as_fraction()) if z3.is_rational_value(t) else t.as_long(), like, N + 1), none
        if t.eq(self.var):
            return self.seed(), none
        k = t.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return self.value(t.arg(0))
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            ch = t.children()
            parts = [(1 if k == z3.Z3_OP_ADD or i == 0 else -1,) + self.factors(c) for i, c in enumerate(ch)]
            return self.add([(s * q, f) for s, q, f in parts])
        if k == z3.Z3_OP_UMINUS:
            v, p = self.value(t.arg(0))
            return [-a for a in v], p
        if k == z3.Z3_OP_MUL:
            r = None
            for c in t.children():
                v, p = self.value(c)
                r = (v, p) if r is None else (self.refine(jmul(r[0], v)), self.blame(r[1], p))
            return r
        if k == z3.Z3_OP_DIV:
            (a, p), (b, q) = self.value(t.arg(0)), self.value(t.arg(1))
            return jdiv(a, b), self.blame(p, q)
        if k == z3.Z3_OP_ITE:
            c, cp = self.cond(t.arg(0))
            (a, p), (b, q) = self.value(t.arg(1)), self.value(t.arg(2))
            two = np.concatenate([c, c])
            out = []
            for j, (u, v) in enumerate(zip(a, b)):
                r = u.where(two == 1, v)
                # not settled: either value, and no derivative
                lo, hi = (np.minimum(u.lo, v.lo), np.maximum(u.hi, v.hi)) if j == 0 else (-INF, INF)
                out.append(Iv(np.where(two == -1, lo, r.lo), np.where(two == -1, hi, r.hi)))
            return out, np.where(c == 1, p, np.where(c == 0, q, cp))
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args():
            nm = str(t.decl().name())
            v, p = self.value(t.arg(0))
            if nm in ("EXP", "LOG", "TANH", "SQRT"):
                return {"EXP": jexp, "LOG": jlog, "TANH": jtanh, "SQRT": jsqrt}[nm](v), p
            if nm == "POW" and z3.is_rational_value(t.arg(1)):
                return jpow(v, Fraction(t.arg(1).as_fraction())), p
        raise Cannot("the term has %s" % t.decl().name())

    def factors(self, t):
        """a number and the other factors of a product"""
        q, out = Fraction(1), []
        todo = [t]
        while todo:
            u = todo.pop()
            if z3.is_rational_value(u):
                q *= Fraction(u.as_fraction())
            elif z3.is_int_value(u):
                q *= u.as_long()
            elif z3.is_app_of(u, z3.Z3_OP_MUL):
                todo += u.children()
            elif z3.is_app_of(u, z3.Z3_OP_UMINUS):
                q = -q
                todo.append(u.arg(0))
            else:
                out.append(u)
        return q, out

    def add(self, parts):
        """a sum: 1 - exp(x) and 1 - tanh(x)^2 without cancellation"""
        like = np.zeros(2 * self.m, dtype=self.c.dtype)
        k = sum(q for q, f in parts if not f)
        rest = [(q, f) for q, f in parts if f]
        acc, pois = const(0, like, N + 1), np.zeros(self.m, int)
        isa = lambda u, nm: z3.is_app_of(u, z3.Z3_OP_UNINTERPRETED) and str(u.decl().name()) == nm
        for q, f in rest:
            if k and k == -q and len(f) == 1 and isa(f[0], "EXP"):
                v, p = self.value(f[0].arg(0))
                r = [a.scale(q) for a in jexp(v, True)]
                k = Fraction(0)
            elif k and k == -q and len(f) == 2 and f[0].eq(f[1]) and isa(f[0], "TANH"):
                v, p = self.value(f[0].arg(0))
                r = [a.scale(-q) for a in jsech2(v)]
                k = Fraction(0)
            else:
                r, p = None, np.zeros(self.m, int)
                for u in f:
                    v, pu = self.value(u)
                    r = v if r is None else self.refine(jmul(r, v))
                    p = self.blame(p, pu)
                r = [a.scale(q) for a in r] if q != 1 else r
            acc, pois = jadd(acc, r), self.blame(pois, p)
        return (jadd(acc, const(k, like, N + 1)) if k else acc), pois

    @staticmethod
    def blame(p, q):
        return np.where(p != 0, p, q)

    def cond(self, t):
        """1, 0 or -1 (not settled) per box, and the condition to blame"""
        none = np.zeros(self.m, int)
        if isinstance(t, bool) or z3.is_true(t) or z3.is_false(t):
            return none + (1 if t is True or (not isinstance(t, bool) and z3.is_true(t)) else 0), none
        k = t.get_id()
        if k in self.bmemo:
            return self.bmemo[k]
        self.bmemo[k] = r = self._cond(t)
        return r

    def _cond(self, t):
        none = np.zeros(self.m, int)
        k = t.decl().kind()
        if k == z3.Z3_OP_NOT:
            c, p = self.cond(t.arg(0))
            return np.where(c == -1, -1, 1 - c), p
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            end = 0 if k == z3.Z3_OP_AND else 1
            c, p = none + (1 - end), none
            for u in t.children():
                d, q = self.cond(u)
                done = (c == end) | (d == end)
                p = np.where(done, 0, np.where(p != 0, p, q))
                c = np.where(done, end, np.where((c == -1) | (d == -1), -1, c))
            return c, p
        i = t.get_id()
        if i in self.forced:
            c, _ = self.compare(t, i)
            self.vacuous |= c == 1 - self.forced[i]
            return none + self.forced[i], none
        return self.compare(t, i)

    def compare(self, t, i):
        k = t.decl().kind()
        if k == z3.Z3_OP_LE or k == z3.Z3_OP_GE or k == z3.Z3_OP_LT or k == z3.Z3_OP_GT or k == z3.Z3_OP_EQ and not z3.is_bool(t.arg(0)):
            (a, p), (b, q) = self.value(t.arg(0)), self.value(t.arg(1))
            d = Iv(a[0].lo[self.m:], a[0].hi[self.m:]) - Iv(b[0].lo[self.m:], b[0].hi[self.m:])
            p = self.blame(p, q)
            if k == z3.Z3_OP_EQ:
                yes, no = (d.lo == 0) & (d.hi == 0), (d.lo > 0) | (d.hi < 0)
            else:
                if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                    d = -d
                yes, no = (d.hi <= 0, d.lo > 0) if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) else (d.hi < 0, d.lo >= 0)
            c = np.where(yes.astype(bool), 1, np.where(no.astype(bool), 0, -1))
            return c, np.where(c == -1, np.where(p != 0, p, i), 0)
        raise Cannot("the condition has %s" % t.decl().name())


def holds(var, t, bound, lo, hi, rho=0.005, seconds=60, depth=20, first=10):
    """(True, None, n), (False, y, n) with a y at which |t| > bound for certain, or (None, why, n): |t| <= bound for all lo <= var <= hi"""
    end = time.time() + seconds
    n = 0
    with np.errstate(all="ignore"):
        r = (1 + rho) / (1 - rho)
        k = int(math.ceil((math.log(hi) - math.log(lo)) / math.log(r))) + 1
        c = lo * np.exp(np.arange(k) * math.log(r)) * (1 + rho)
        if not (c[0] * (1 - rho) <= lo * (1 + 1e-9) and c[-1] * (1 + rho) >= hi):
            raise Cannot("the boxes do not cover the range")
        # boxes overlap a little, so that rounding leaves no gap
        todo = {((), False): (c, np.full(k, rho * 1.001), np.zeros(k, int))}
        while todo:
            key = min(todo, key=lambda z: (z[1], len(z[0])))
            forced, fine = key
            c, rh, d = todo.pop(key)
            most = 40 if fine else 4000
            if len(c) > most:
                todo[key] = (c[most:], rh[most:], d[most:])
                c, rh, d = c[:most], rh[:most], d[:most]
            if time.time() > end:
                return None, "out of time at %.17g" % c[0], n

            def later(f, *v):
                old = todo.get(f)
                todo[f] = v if old is None else tuple(np.concatenate(z) for z in zip(old, v))
            m = len(c)
            as_mp = lambda v: np.array([mpmath.mpf(float(x)) for x in v], dtype=object)
            ev = Eval(var, as_mp(c) if fine else c, as_mp(rh) if fine else rh, dict(forced))
            v, p = ev.value(t)
            n += m
            lo_, hi_ = v[0].lo.astype(float), v[0].hi.astype(float)
            bad = ~(np.maximum(np.abs(lo_[m:]), np.abs(hi_[m:])) <= float(bound) * (1 - 1e-12)) & ~ev.vacuous
            if not forced:
                # the value at a centre lies between these
                away = (lo_[:m] > float(bound)) | (hi_[:m] < -float(bound))
                if away.any():
                    return False, float(c[np.nonzero(away)[0][0]]), n
            if not bad.any():
                continue
            # the value at the centre is not known well enough: more digits
            rough = bad & (p == 0) & ~(hi_[:m] - lo_[:m] <= float(bound) / 4) & (d >= first) & (not fine)
            if rough.any():
                later((forced, True), c[rough], rh[rough], d[rough])
                bad = bad & ~rough
            # first smaller boxes, then a condition taken both ways
            split = bad & ((d < first) | (p == 0))
            if (split & (d >= depth)).any():
                return None, "not settled at %.17g" % c[split & (d >= depth)][0], n
            if split.any():
                h = rh[split] / 2
                later(key, np.concatenate([c[split] * (1 - h), c[split] * (1 + h)]), np.concatenate([h / (1 - h), h]) * 1.001, np.concatenate([d[split] + 1] * 2))
            for i in sorted(set(p[bad & ~split].tolist())):
                w = bad & ~split & (p == i)
                if len(forced) >= 12:
                    return None, "not settled at %.17g" % c[w][0], n
                for b in (0, 1):
                    later((forced + ((i, b),), fine), c[w], rh[w], d[w])
    return True, None, n


def scaled(t, env, memo=None):
    """(exponents, u): t is u times the given powers of positive quantities on which u does not depend; env has the leaves"""
    memo = {} if memo is None else memo
    zero = tuple(Fraction(0) for _ in next(iter(env.values()))[0])

    def isnum(u):
        return z3.is_rational_value(u) or z3.is_int_value(u)

    def same(parts):
        """terms to be compared or added: of one dimension, apart from zeros"""
        dims = {d for d, u in parts if not (isnum(u) and z3.simplify(u == 0).eq(z3.BoolVal(True)))}
        if len(dims) > 1:
            raise Cannot("terms of different dimension")
        return dims.pop() if dims else zero

    def go(t):
        k = t.get_id()
        if k not in memo:
            memo[k] = node(t) + (t,)
        return memo[k][:2]

    def node(t):
        if t.get_id() in env:
            d, u = env[t.get_id()]
            return tuple(Fraction(v) for v in d), u
        if isnum(t) or z3.is_true(t) or z3.is_false(t):
            return zero, t
        if not z3.is_app(t) or not t.num_args():
            raise Cannot("the term has %s" % str(t)[:40])
        k, d = t.decl().kind(), t.decl()
        ch = [go(c) for c in t.children()]
        us = [u for _, u in ch]
        if k == z3.Z3_OP_MUL:
            return tuple(map(sum, zip(*[e for e, _ in ch]))), mk(d, us)
        if k == z3.Z3_OP_DIV:
            return tuple(a - b for a, b in zip(ch[0][0], ch[1][0])), mk(d, us)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            return same(ch), mk(d, us)
        if k in (z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL):
            return ch[0][0], mk(d, us)
        if k == z3.Z3_OP_ITE:
            c = z3.simplify(us[0])
            if z3.is_true(c):
                return ch[1]
            if z3.is_false(c):
                return ch[2]
            return same(ch[1:]), z3.If(c, us[1], us[2])
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or k == z3.Z3_OP_EQ and not z3.is_bool(t.arg(0)):
            same(ch)
            return zero, mk(d, us)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
            return zero, mk(d, us)
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = str(d.name())
            if nm == "SQRT":
                return tuple(a / 2 for a in ch[0][0]), mk(d, us)
            if nm == "POW" and isnum(us[1]):
                r = Fraction(us[1].as_fraction())
                return tuple(a * r for a in ch[0][0]), mk(d, us)
            if any(v for e, _ in ch for v in e):
                raise Cannot("%s of something with a dimension" % nm)
            return zero, mk(d, us)
        raise Cannot("the term has %s" % d.name())

    def mk(d, us):
        k = d.kind()
        if k == z3.Z3_OP_ADD:
            r = us[0]
            return z3.Sum(us) if len(us) > 1 else r
        if k == z3.Z3_OP_MUL:
            return z3.Product(us) if len(us) > 1 else us[0]
        if k == z3.Z3_OP_AND:
            return z3.And(*us)
        if k == z3.Z3_OP_OR:
            return z3.Or(*us)
        return d(*us)

    return go(t)
