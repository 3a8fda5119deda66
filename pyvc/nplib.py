"""Contracts of Python built-ins, numpy and scipy used by the package (assumed, not verified)."""
from fractions import Fraction

import z3

import solve as S
import terms as T_
from solve import (ALL, ANY, ARGMAX, CNT, DFT, FIRST, LAST, NTH, PERM, RND, SIMP, SUM, Univ, fresh, functional)
from terms import (B, Cx, I, R, RS, IS, Unsupported, T, conc, cx, deps, isbool, isinf, isint, keep, num, ratio, req, s_add, s_and, s_cmp, s_eq, s_ite,
                   s_mul, s_neg, s_not, s_or, s_sub, simp, sym, vkey)

BOOL = z3.BoolSort()
NAN = float("nan")
INF = float("inf")


# ----------------------------------------------------------------------------- scalar operations
def isnan_(v):
    return isinstance(v, float) and v != v


def v_neg(a):
    if isinstance(a, Cx):
        return Cx(s_neg(a.re), s_neg(a.im))
    return s_neg(a)


def v_add(a, b):
    if isnan_(a) or isnan_(b):
        return NAN
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(s_add(a.re, b.re), s_add(a.im, b.im))
    return s_add(a, b)


def v_sub(a, b):
    return v_add(a, v_neg(b))


def v_mul(a, b):
    if isnan_(a) or isnan_(b):
        return NAN
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(s_sub(s_mul(a.re, b.re), s_mul(a.im, b.im)), s_add(s_mul(a.re, b.im), s_mul(a.im, b.re)))
    return s_mul(a, b)


def s_div(a, b):
    a, b = num(a), num(b)
    if isnan_(a) or isnan_(b):
        return NAN
    if not sym(a) and not sym(b):
        if b == 0:
            raise Unsupported("division by the constant zero")
        if isinf(a) or isinf(b):
            return float(a) / float(b) if not isinf(b) or isinf(a) else 0
        r = Fraction(a) / Fraction(b)
        return r
    if isinf(b):
        return 0
    if isinf(a):
        raise Unsupported("infinity divided by a symbolic value")
    if not sym(a) and a == 0:
        return 0
    if not sym(b):
        return keep(R(a) * R(Fraction(1) / Fraction(b)))
    return keep(R(a) / R(b))


def v_div(a, b):
    if isinstance(b, Cx):
        if not sym(b.im) and b.im == 0:
            return v_div(a, b.re)
        a = cx(a)
        d = s_add(s_mul(b.re, b.re), s_mul(b.im, b.im))
        n = v_mul(a, Cx(b.re, s_neg(b.im)))
        return Cx(s_div(n.re, d), s_div(n.im, d))
    if isinstance(a, Cx):
        return Cx(s_div(a.re, b), s_div(a.im, b))
    return s_div(a, b)


def s_floor(x):
    x = num(x)
    if isint(x) or isinf(x):
        return x
    if not sym(x):
        return x.numerator // x.denominator
    x = simp(x)
    if not sym(x):
        return s_floor(x)
    if isint(x):
        return x
    try:
        n, d = ratio(x)
        # floor(int/const) -> div
        if len(d) == 1 and list(d) == [()]:
            from math import lcm
            # whole part
            n = {m: c / d[()] for m, c in n.items()}
            d = T_.p_const(1)
            w = {m: c for m, c in n.items() if m and c.denominator == 1 and all(T_.ATOM[k].sort() == IS for k, _ in m)}
            c0 = n.get((), 0)
            if c0 and c0.numerator // c0.denominator:
                w[()] = T_.Fraction(c0.numerator // c0.denominator)
            if w:
                rest = {m: c - w.get(m, 0) for m, c in n.items()}
                rest = {m: c for m, c in rest.items() if c}
                return s_add(simp(S.p_int(w)), s_floor(keep(T_.p_term(rest))) if rest else 0)
            q = 1
            ints = True
            for m, c in n.items():
                q = lcm(q, c.denominator)
                ints = ints and all(T_.ATOM[k].sort() == IS for k, _ in m)
            if ints:
                p = S.p_int({m: c * q for m, c in n.items()})
                return simp(p / z3.IntVal(q)) if q > 1 else simp(p)
        t = T_.p_term(n)
        if d != T_.p_const(1):
            t = t / T_.p_term(d)
        keep(t)
        return keep(z3.ToInt(t))
    except Unsupported:
        return keep(z3.ToInt(x))


def s_ceil(x):
    return s_neg(s_floor(s_neg(x)))


def s_trunc(x):
    x = num(x)
    if isint(x) or isinf(x):
        return x
    return s_ite(s_cmp(">=", x, 0), s_floor(x), s_ceil(x))


def s_round(x):
    """round half to even"""
    x = num(x)
    if isint(x) or isinf(x):
        return x
    if not sym(x):
        return round(x)
    x = simp(x)
    if not sym(x) or isint(x):
        return s_round(x)
    return keep(RND(T_.canon(R(x))))


def s_abs(x):
    x = num(x)
    if not sym(x):
        return abs(x)
    return s_ite(s_cmp(">=", x, 0), x, s_neg(x))


def v_abs(x):
    if isinstance(x, Cx):
        if not sym(x.im) and x.im == 0:
            return s_abs(x.re)
        return T_.u_sqrt(s_add(s_mul(x.re, x.re), s_mul(x.im, x.im)))
    return s_abs(x)


def v_conj(x):
    return Cx(x.re, s_neg(x.im)) if isinstance(x, Cx) else x


def v_re(x):
    return x.re if isinstance(x, Cx) else x


def v_im(x):
    return x.im if isinstance(x, Cx) else 0


def v_sqrt(x):
    if isinstance(x, Cx):
        raise Unsupported("complex square root")
    if isinf(x):
        return x
    return T_.u_sqrt(num(x))


def v_exp(x):
    if isinstance(x, Cx):
        c, s = T_.trig(x.im)
        m = 1 if not sym(x.re) and x.re == 0 else T_.u_exp(x.re)
        return Cx(s_mul(m, c), s_mul(m, s))
    return T_.u_exp(num(x))


def v_sign(x):
    if isinstance(x, Cx):
        raise Unsupported("sign of complex")
    return s_ite(s_cmp(">", x, 0), 1, s_ite(s_cmp("<", x, 0), -1, 0))


def v_pow(a, b):
    if isnan_(a) or isnan_(b):
        return NAN
    b = num(b)
    if sym(b):
        b = simp(b)
    if isinstance(b, Cx):
        raise Unsupported("complex exponent")
    if isinstance(a, float) or isinstance(b, float):
        if not sym(a) and not sym(b):
            try:
                r = float(a) ** float(b)
                return r if r != r or r in (INF, -INF) else Fraction(r)
            except (ZeroDivisionError, OverflowError):
                raise Unsupported("power")
        if isinstance(a, float):
            if not sym(b):
                return (INF if b > 0 else 0 if b < 0 else 1)
            raise Unsupported("infinity to a symbolic power")
        raise Unsupported("power")
    if not sym(b):
        fb = Fraction(b)
        if fb.denominator == 1 and abs(fb) <= 12:
            n = int(fb)
            r = 1
            for _ in range(abs(n)):
                r = v_mul(r, a)
            return r if n >= 0 else v_div(1, r)
        if isinstance(a, Cx):
            raise Unsupported("complex power")
        if fb == Fraction(1, 2):
            return v_sqrt(a)
        if fb == Fraction(3, 2):
            return v_mul(a, v_sqrt(a))
        if not sym(a):
            if a == 0:
                return 0
            if a == 1:
                return 1
    if isinstance(a, Cx):
        raise Unsupported("complex power")
    return T_.u_pow(num(a), b)


def v_cmp(op, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        e = s_and(s_eq(a.re, b.re), s_eq(a.im, b.im))
        if op == "==":
            return e
        if op == "!=":
            return s_not(e)
        raise Unsupported("order of complex numbers")
    if isnan_(a) or isnan_(b):
        return op == "!="
    return s_cmp(op, a, b)


def v_ite(c, a, b):
    if isnan_(a) and isnan_(b):
        return NAN
    return s_ite(c, a, b)


def v_mod(a, b):
    a, b = num(a), num(b)
    if not sym(a) and not sym(b):
        return a % b
    if isint(a) and isint(b) and not sym(b) and b > 0:
        return simp(I(a) % z3.IntVal(b))
    if not sym(b) and b > 0:
        return s_sub(a, s_mul(b, s_floor(s_div(a, b))))
    return s_sub(a, s_mul(b, s_floor(s_div(a, b))))


def v_floordiv(a, b):
    a, b = num(a), num(b)
    if not sym(a) and not sym(b):
        return a // b
    return s_floor(s_div(a, b))


BIN = {"Add": v_add, "Sub": v_sub, "Mult": v_mul, "Div": v_div, "Pow": v_pow, "Mod": v_mod, "FloorDiv": v_floordiv}
OPNAMES = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow", "float_power": "Pow", "mod": "Mod", "remainder": "Mod", "floor_divide": "FloorDiv"}
ORD = "bifc"


def promo(*ds):
    if "o" in ds:
        return "o"
    return max(ds, key=ORD.index) if ds else "f"


def sdt(v):
    if isinstance(v, Cx):
        return "c"
    if isbool(v):
        return "b"
    if isint(v):
        return "i"
    if isinstance(v, (Fraction, float)) or sym(v):
        return "f"
    return "o"


class Args(list):
    """positional arguments of a library call; remembers which were looked at"""

    def __init__(self, v):
        super().__init__(v)
        self.seen = set()

    def all(self):
        self.seen |= set(range(len(self)))

    def __getitem__(self, i):
        self.seen |= set(range(len(self))[i]) if isinstance(i, slice) else {i % len(self)} if len(self) else set()
        return super().__getitem__(i)

    def __iter__(self):
        self.all()
        return super().__iter__()

    def __add__(self, o):
        self.all()
        return list(self) + list(o)

    def __radd__(self, o):
        self.all()
        return list(o) + list(self)


class Kw(dict):
    """keyword arguments of a library call; remembers which were looked at"""

    def __init__(self, v):
        super().__init__(v)
        self.seen = set()

    def all(self):
        self.seen |= set(dict.keys(self))

    def __getitem__(self, k):
        self.seen.add(k)
        return super().__getitem__(k)

    def get(self, k, d=None):
        self.seen.add(k)
        return super().get(k, d)

    def pop(self, k, *d):
        self.seen.add(k)
        return super().pop(k, *d)

    def __contains__(self, k):
        self.seen.add(k)
        return super().__contains__(k)

    def __iter__(self):
        self.all()
        return super().__iter__()

    def keys(self):
        self.all()
        return super().keys()

    def items(self):
        self.all()
        return super().items()

    def values(self):
        self.all()
        return super().values()


class Dt:
    def __init__(self, c):
        self.c = c


class Rng:
    """state of the global random generator"""

    def __init__(self, s):
        self.s = s

    def state(self):
        return self.s

    def restore(self, s):
        self.s = s


SEED = z3.Function("SEEDED", IS, IS)
RNGNEXT = z3.Function("RNGNEXT", IS, IS, IS)
RAND = z3.Function("RAND", IS, IS, RS)
S.ELEM_FACTS["RAND"] = lambda t, sat: [t >= 0, t < 1]
GAMMA = z3.Function("GAMMA", RS, RS)
GAMMAINC = z3.Function("GAMMAINC", RS, RS, RS)
S.ELEM_FACTS["GAMMA"] = lambda t, sat: [z3.Implies(t.arg(0) > 0, t > 0)]
S.ELEM_FACTS["GAMMAINC"] = lambda t, sat: [z3.Implies(z3.And(t.arg(0) > 0, t.arg(1) >= 0), z3.And(t >= 0, t < 1)), z3.Implies(z3.And(t.arg(0) > 0, t.arg(1) > 0), t > 0)]


def ARGMAXP(n, f, p):
    """first index i with p(i) of the largest f(i)"""
    return functional("ARGMAXP", (n,), [((0,), T_.memo_clos(f)), ((0,), T_.memo_clos(p))], IS)


T_.REBUILD["ARGMAXP"] = lambda f, scal, clos: ARGMAXP(scal[0], clos[0][1], clos[1][1])


def _argmaxp_facts(f, sat):
    n, c = f.scal[0], f.const
    g, p = f.clos[0][1], f.clos[1][1]
    F = FIRST(n, p)
    ne = s_cmp("<", F, n)
    return [S.imp(ne, s_and(s_cmp(">=", c, 0), s_cmp("<", c, n), p(c))),
            Univ(0, n, lambda i: S.imp(p(i), s_and(s_cmp("<=", g(i), g(c)), S.imp(s_cmp("<", i, c), s_cmp("<", g(i), g(c))))))]


S.EXTRA_FACTS["ARGMAXP"] = _argmaxp_facts


def INTERP(x, n, xp, fp, left, right):
    return functional("INTERP", (x, n, left if left is not None else fp(0), right if right is not None else fp(s_sub(n, 1))),
                      [((n,), T_.memo_clos(xp)), ((n,), T_.memo_clos(fp))], RS)


T_.REBUILD["INTERP"] = lambda f, scal, clos: functional("INTERP", scal, [((scal[1],), clos[0][1]), ((scal[1],), clos[1][1])], RS)


def _interp_facts(f, sat):
    x, n, l, r = f.scal
    xp, fp = f.clos[0][1], f.clos[1][1]
    c = f.const


    def seg(i):
        j = s_add(i, 1)
        a, b, u, v = xp(i), xp(j), fp(i), fp(j)
        inside = s_and(s_cmp("<=", a, x), s_cmp("<=", x, b), s_cmp("<", a, b))
        line = s_add(u, s_mul(s_div(s_sub(x, a), s_sub(b, a)), s_sub(v, u)))
        between = s_or(s_and(s_cmp("<=", u, c), s_cmp("<=", c, v)), s_and(s_cmp("<=", v, c), s_cmp("<=", c, u)))
        return S.imp(inside, s_and(s_eq(c, line), between))
    return [S.imp(s_cmp("<", x, xp(0)), s_eq(c, l)), S.imp(s_cmp(">", x, xp(s_sub(n, 1))), s_eq(c, r)), Univ(0, s_sub(n, 1), seg)]


S.EXTRA_FACTS["INTERP"] = _interp_facts


def _interp_cases(hyps, f):
    x, n, l, r = f.scal
    xp, fp = f.clos[0][1], f.clos[1][1]
    out = [(s_cmp("<", x, xp(0)), l), (s_cmp(">", x, xp(s_sub(n, 1))), r)]
    for i in S.index_constants(hyps):
        if i.eq(n) if sym(n) else False:
            continue
        j = s_add(i, 1)
        a, b, u, v = xp(i), xp(j), fp(i), fp(j)
        out.append((s_and(s_cmp(">=", i, 0), s_cmp("<", j, n), s_cmp("<=", a, x), s_cmp("<=", x, b), s_cmp("<", a, b)), s_add(u, s_mul(s_div(s_sub(x, a), s_sub(b, a)), s_sub(v, u)))))
    return out


S.CASE_RULES["INTERP"] = _interp_cases


class DKey:
    """key of a dictionary that may be symbolic: hashed by identity, compared on the path"""

    def __init__(self, v):
        self.v = v


class Lib:
    def __init__(self, it):
        self.it = it
        self.calls = []
        self.rng = None

    # ------------------------------------------------------------------ helpers
    def A(self, shape, fn, dtype="f", sel=None):
        return self.it.new_arr(shape, fn, dtype, sel)

    def size(self, a):
        r = 1
        for d in a.shape:
            r = s_mul(r, d)
        return r

    def selkey(self, sel):
        n, p, _g = sel
        return (vkey(simp(n) if sym(n) else n), vkey(p(T_.bvar(70))))

    def note(self, what):
        self.it.assumed.add(what)

    def dtype_of(self, v):
        from interp import Arr
        return v.dtype if isinstance(v, Arr) else sdt(v)

    def conv_dtype(self, d):
        """dtype argument -> letter"""
        from interp import Ext, Opaque
        if d is None:
            return "f"
        if isinstance(d, Dt):
            return d.c
        nm = d.path.split(".")[-1] if isinstance(d, Ext) else d if isinstance(d, str) else None
        m = {"float": "f", "float64": "f", "double": "f", "complex": "c", "complex128": "c", "cdouble": "c", "int": "i", "int64": "i", "intp": "i", "int_": "i", "bool": "b", "bool_": "b", "longdouble": "f"}
        if nm in m:
            return m[nm]
        raise Unsupported("dtype %s" % (nm,))

    def cast(self, v, d):
        if d == "f":
            if isinstance(v, Cx):
                if not sym(v.im) and v.im == 0:
                    return v.re
                raise Unsupported("complex value stored in a real array")
            return R(v) if not isinf(v) and (sym(v) and v.sort() != RS) else num(v)
        if d == "i":
            if isinstance(v, Cx):
                raise Unsupported("complex value stored in an integer array")
            return s_trunc(v)
        if d == "b":
            return self.it.truth(v)
        return v

    def asarr(self, v, dtype=None):
        """np.asarray"""
        from interp import Arr, IterVal, PList, SymList
        if isinstance(v, Arr):
            return v
        if isinstance(v, SymList):
            return v.arr
        if isinstance(v, (PList, tuple)):
            items = v.items if isinstance(v, PList) else list(v)
            if not items:
                return self.A((0,), lambda i: 0, "f")
            subs = [x for x in items]
            if all(self.isscal(x) for x in subs):
                dt = promo(*[sdt(x) for x in subs])
                return self.A((len(subs),), lambda i: self.pick(subs, i), dt)
            arrs = [self.asarr(x) for x in subs]
            sh = arrs[0].shape
            for a in arrs[1:]:
                if len(a.shape) != len(sh) or not all(self.it.decide(s_eq(x, y)) for x, y in zip(a.shape, sh)):
                    raise PyRaise_("ValueError", "inhomogeneous shape")
            cs = [a.content() for a in arrs]
            dt = promo(*[a.dtype for a in arrs])
            return self.A((len(arrs),) + tuple(sh), lambda i, *r: self.pickf(cs, i, r), dt)
        if self.isscal(v):
            return self.A((), lambda: v, sdt(v))
        if isinstance(v, IterVal):
            return self.A((v.n,), v.item, sdt(v.item(0)))
        raise Unsupported("array of %r" % (v,))

    def pick(self, items, i):
        i = simp(i) if sym(i) else i
        if not sym(i):
            return items[i] if 0 <= i < len(items) else items[0]
        r = items[-1]
        for k in reversed(range(len(items) - 1)):
            r = v_ite(s_eq(i, k), items[k], r)
        return r

    def pickf(self, fs, i, rest):
        i = simp(i) if sym(i) else i
        if not sym(i):
            return fs[i](*rest) if 0 <= i < len(fs) else fs[0](*rest)
        r = fs[-1](*rest)
        for k in reversed(range(len(fs) - 1)):
            r = v_ite(s_eq(i, k), fs[k](*rest), r)
        return r

    def isscal(self, v):
        return isinstance(v, (int, Fraction, float, bool, Cx)) or sym(v)

    def concrete_items(self, v):
        n, item = self.iterate(v)
        n = simp(n) if sym(n) else n
        if sym(n):
            raise Unsupported("unpacking a sequence of unknown length")
        return [item(i) for i in range(int(n))]

    def unpack(self, v, k, starred):
        if any(starred):
            items = self.concrete_items(v)
            p = starred.index(True)
            m = len(items) - (k - 1)
            if m < 0:
                raise PyRaise_("ValueError", "unpack")
            return items[:p] + [self.it.reg(_PList(items[p:p + m]))] + items[p + m:]
        n, item = self.iterate(v)
        if sym(n):
            if not self.it.decide(s_eq(n, k)):
                raise PyRaise_("ValueError", "unpack")
        elif n != k:
            raise PyRaise_("ValueError", "unpack")
        return [item(i) for i in range(k)]

    def iterate(self, v):
        """(length, item function) of an iterable"""
        from interp import Arr, IterVal, PDict, PList, RangeVal, SymList
        if isinstance(v, RangeVal):
            return v.n, lambda i: s_add(v.start, s_mul(i, v.step))
        if isinstance(v, IterVal):
            return v.n, v.item
        if isinstance(v, tuple):
            return len(v), lambda i: self.elem(v, i)
        if isinstance(v, PList):
            items = tuple(v.items)
            return len(items), lambda i: self.elem(items, i)
        if isinstance(v, SymList):
            v = v.arr
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyRaise_("TypeError", "iteration over a 0-d array")
            if v.ndim == 1:
                return v.shape[0], lambda i: v.at(i) if v.sel is None else self.sel_at(v, i)
            return v.shape[0], lambda i: self.getitem(v, i, check=False)
        if isinstance(v, PDict):
            ks = tuple(v.d)
            return len(ks), lambda i: ks[i]
        if isinstance(v, str):
            return len(v), lambda i: v[i]
        if self.isscal(v) or v is None:
            raise PyRaise_("TypeError", "not iterable")
        raise Unsupported("iteration over %r" % (v,))

    def elem(self, items, i):
        i = simp(i) if sym(i) else i
        if not sym(i):
            return items[i]
        if all(self.isscal(x) for x in items):
            return self.pick(list(items), i)
        raise Unsupported("symbolic index in a list of objects")

    # ------------------------------------------------------------------ elementwise
    def shapes(self, arrs):
        nd = max(a.ndim for a in arrs)
        out = []
        for k in range(nd):
            dims = []
            for a in arrs:
                q = k - (nd - a.ndim)
                if q >= 0:
                    dims.append(a.shape[q])
            cur = None
            for d in dims:
                d = simp(d) if sym(d) else d
                if cur is None or (not sym(cur) and cur == 1):
                    cur = d if cur is None or not (not sym(d) and d == 1) else cur
                    if cur is None:
                        cur = d
                    if not sym(d) and d == 1 and cur is None:
                        cur = d
                    continue
                if not sym(d) and d == 1:
                    continue
                if vkey(d) == vkey(cur):
                    continue
                if self.it.decide(s_eq(d, cur)):
                    continue
                if sym(cur) and self.it.decide(s_eq(cur, 1)):
                    cur = d
                    continue
                if sym(d) and self.it.decide(s_eq(d, 1)):
                    continue
                raise PyRaise_("ValueError", "shapes do not match")
            out.append(cur)
        return tuple(out)

    def bix(self, a, shape, ix):
        """index of a for a broadcast index"""
        off = len(shape) - a.ndim
        out = []
        for q in range(a.ndim):
            d = a.shape[q]
            d = simp(d) if sym(d) else d
            o = shape[off + q]
            if not sym(d) and d == 1 and not (not sym(o) and o == 1):
                out.append(0)
            elif sym(d) and vkey(d) != vkey(o) and not self.it.known(s_eq(d, o)):
                out.append(0)  # decided to be of length one
            else:
                out.append(ix[off + q])
        return out

    def ew(self, fn, dt, *ops):
        from interp import Arr
        arrs = [o for o in ops if isinstance(o, Arr)]
        if not arrs:
            return fn(*ops)
        if all(a.ndim == 0 for a in arrs):
            return fn(*[o.at() if isinstance(o, Arr) else o for o in ops])
        sels = [a.sel for a in arrs]
        if all(s is not None for s in sels) and len({self.selkey(s) for s in sels}) == 1:
            n, p, _ = sels[0]
            gs = [o.sel[2] if isinstance(o, Arr) else (lambda o: lambda i: o)(o) for o in ops]
            return self.it.sel_arr(n, p, lambda i: fn(*[g(i) for g in gs]), dt)
        shape = self.shapes(arrs)
        cs = []
        for o in ops:
            if isinstance(o, Arr):
                c = o.content()
                same = len(o.shape) == len(shape) and all(vkey(x) == vkey(y) for x, y in zip(o.shape, shape))
                if same:
                    cs.append(c)
                else:
                    mask = self.bmask(o, shape)
                    cs.append((lambda c, mask, off: lambda *ix: c(*[ix[off + q] if k else 0 for q, k in enumerate(mask)]))(c, mask, len(shape) - o.ndim))
            else:
                cs.append((lambda o: lambda *ix: o)(o))
        return self.A(shape, lambda *ix: fn(*[c(*ix) for c in cs]), dt)

    def bmask(self, a, shape):
        off = len(shape) - a.ndim
        out = []
        for q in range(a.ndim):
            d = simp(a.shape[q]) if sym(a.shape[q]) else a.shape[q]
            o = shape[off + q]
            if vkey(d) == vkey(o):
                out.append(True)
            elif not sym(d) and d == 1:
                out.append(False)
            else:
                out.append(self.it.known(s_eq(d, o)))
        return out

    def binop(self, op, a, b):
        from interp import Arr, PList, SymList
        if isinstance(a, Arr) or isinstance(b, Arr):
            a2 = self.asarr(a) if isinstance(a, (PList, SymList, tuple)) else a
            b2 = self.asarr(b) if isinstance(b, (PList, SymList, tuple)) else b
            if a2 is None or b2 is None or isinstance(a2, str) or isinstance(b2, str):
                raise PyRaise_("TypeError", "operand")
            if op == "MatMult":
                return self.matmul(a2, b2)
            if op in ("BitAnd", "BitOr", "BitXor"):
                f = {"BitAnd": s_and, "BitOr": s_or, "BitXor": lambda x, y: s_not(s_eq(B(x), B(y)))}[op]
                if self.dtype_of(a2) != "b" or self.dtype_of(b2) != "b":
                    raise Unsupported("bit operation on numbers")
                return self.ew(f, "b", a2, b2)
            if op not in BIN:
                raise Unsupported("operator %s" % op)
            dt = promo(self.dtype_of(a2), self.dtype_of(b2))
            if op == "Div":
                dt = promo(dt, "f")
            if op == "Pow" and dt == "i":
                if not sym(b2) and not isinstance(b2, Arr) and b2 < 0:
                    raise PyRaise_("ValueError", "integers to negative powers")
            if dt == "b":
                dt = "i"
            return self.ew(BIN[op], dt, a2, b2)
        if self.isscal(a) and self.isscal(b):
            if op in ("BitAnd", "BitOr", "BitXor"):
                if isbool(a) and isbool(b):
                    return {"BitAnd": s_and, "BitOr": s_or, "BitXor": lambda x, y: s_not(s_eq(x, y))}[op](a, b)
                raise Unsupported("bit operation")
            if op in ("Div", "FloorDiv", "Mod") and not isinstance(b, Cx) and not sym(b) and not isinf(b) and num(b) == 0:
                raise PyRaise_("ZeroDivisionError")
            if op not in BIN:
                raise Unsupported("operator %s" % op)
            return BIN[op](a, b)
        if isinstance(a, str) and isinstance(b, str) and op == "Add":
            return a + b
        if isinstance(a, str) and op == "Mod":
            return "<formatted>"
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if isinstance(a, PList) and isinstance(b, PList) and op == "Add":
            return self.it.reg(PList(a.items + b.items))
        if isinstance(a, PList) and op == "Mult" and isinstance(b, int):
            return self.it.reg(PList(a.items * b))
        if isinstance(a, PList) and op == "Mult" and sym(b) and len(a.items) == 1 and self.isscal(a.items[0]):
            v = a.items[0]
            from interp import SymList as SL
            return self.it.reg(SL(self.A((b,), lambda i: v, sdt(v))))
        if a is None or b is None or isinstance(a, (str, PList, SymList, tuple)) or isinstance(b, (str, PList, SymList, tuple)):
            if isinstance(a, (PList, SymList, tuple, str)) and op == "Mult" or isinstance(b, (PList, SymList, tuple, str)) and op in ("Mult", "Add"):
                raise Unsupported("sequence operator")
            raise PyRaise_("TypeError", "operand types")
        raise Unsupported("operator %s on %r, %r" % (op, a, b))

    def matmul(self, a, b):
        if not (isinstance(a, type(b)) and a.ndim in (1, 2) and b.ndim in (1, 2)):
            raise Unsupported("matrix product")
        ka, kb = a.shape[-1], b.shape[0]
        if not self.it.decide(s_eq(ka, kb)):
            raise PyRaise_("ValueError", "matmul")
        ca, cb = a.content(), b.content()
        dt = promo(a.dtype, b.dtype)
        if a.ndim == 1 and b.ndim == 1:
            return SUM(ka, lambda q: v_mul(ca(q), cb(q)))
        if a.ndim == 2 and b.ndim == 1:
            return self.A((a.shape[0],), lambda i: SUM(ka, lambda q: v_mul(ca(i, q), cb(q))), dt)
        if a.ndim == 1 and b.ndim == 2:
            return self.A((b.shape[1],), lambda j: SUM(ka, lambda q: v_mul(ca(q), cb(q, j))), dt)
        return self.A((a.shape[0], b.shape[1]), lambda i, j: SUM(ka, lambda q: v_mul(ca(i, q), cb(q, j))), dt)

    def unary(self, op, v):
        from interp import Arr
        if op == "USub":
            if isinstance(v, Arr):
                return self.ew(v_neg, v.dtype, v)
            if self.isscal(v):
                return v_neg(v)
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, Arr) and v.dtype == "b":
                return self.ew(s_not, "b", v)
            if isbool(v):
                return s_not(v)
        if v is None or isinstance(v, str):
            raise PyRaise_("TypeError")
        raise Unsupported("unary %s" % op)

    def compare(self, op, a, b):
        from interp import Arr, PList, SymList, SymStr
        if isinstance(a, Arr) or isinstance(b, Arr):
            a = self.asarr(a) if isinstance(a, (PList, SymList, tuple)) else a
            b = self.asarr(b) if isinstance(b, (PList, SymList, tuple)) else b
            if a is None or b is None:
                if op in ("==", "!="):
                    x = a if a is not None else b
                    return self.ew(lambda q: op == "!=", "b", x)
                raise PyRaise_("TypeError")
            return self.ew(lambda x, y: v_cmp(op, x, y), "b", a, b)
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if isinstance(b, SymStr):
                a, b = b, a
            if isinstance(b, str):
                r = a.eq(b)
                return r if op == "==" else s_not(r) if op == "!=" else None
            raise Unsupported("comparison of an unknown string")
        if self.isscal(a) and self.isscal(b):
            return v_cmp(op, a, b)
        if isinstance(a, str) and isinstance(b, str):
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if op in ("==", "!="):
            if isinstance(a, tuple) and isinstance(b, tuple):
                r = len(a) == len(b) and s_and(*[self.it.truth(self.compare("==", x, y)) for x, y in zip(a, b)])
                return r if op == "==" else s_not(r)
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                r = a is b
                return r if op == "==" else not r
            if isinstance(a, Dt) and isinstance(b, Dt):
                return (a.c == b.c) == (op == "==")
            if type(a) is type(b) and not isinstance(a, (PList, SymList)):
                return (a is b) == (op == "==")
        if (a is None or b is None) and op not in ("==", "!="):
            raise PyRaise_("TypeError")
        raise Unsupported("comparison %s of %r and %r" % (op, a, b))

    def inplace(self, a, op, v):
        """a op= v"""
        if op not in BIN:
            raise Unsupported("in-place %s" % op)
        r = self.binop(op, a, v)
        if op == "Div" and a.dtype in "bi":
            raise PyRaise_("TypeError", "in-place division of integers")
        if ORD.index(r.dtype) > ORD.index(a.dtype):
            raise PyRaise_("TypeError", "in-place result type")
        c = r.content()
        self.store(a, lambda *ix: True, c)

    # ------------------------------------------------------------------ views, indexing
    def store(self, a, region, val):
        """a[ix] = val(ix) for view indices ix in region (pure functions)"""
        b = a.buf
        old = b.fn
        inv = a.inv
        d = b.dtype
        cast = self.cast
        if inv is None:
            def fn(*ix):
                c = region(*ix)
                if c is False:
                    return old(*ix)
                v = cast(val(*ix), d)
                return v if c is True else v_ite(c, v, old(*ix))
        else:
            def fn(*bx):
                c0, vx = inv(*bx)
                c = s_and(c0, region(*vx))
                c = simp(c) if sym(c) else c
                if c is False:
                    return old(*bx)
                v = cast(val(*vx), d)
                return v if c is True else v_ite(c, v, old(*bx))
        if getattr(b, "frozen", False):
            raise Unsupported("an array shared between calls is changed")
        b.fn = T_.memo_clos(fn)
        b.sel = None

    def view(self, a, dims):
        """dims: per old dimension ('s', value) | ('r', start, step, length), or ('n',) for a new axis"""
        from interp import Arr
        shape = []
        plan = []
        for d in dims:
            if d[0] == "s":
                plan.append(("s", d[1]))
            elif d[0] == "r":
                plan.append(("r", len(shape), d[1], d[2]))
                shape.append(d[3])
            else:
                shape.append(1)
        old_f, old_i = a.fwd, a.inv
        pl = tuple(plan)
        sh = tuple(shape)
        newax = []
        pos = 0
        for d in dims:
            if d[0] == "n":
                newax.append(pos)
            if d[0] != "s":
                pos += 1

        def fwd(*ix):
            o = [p[1] if p[0] == "s" else s_add(p[2], s_mul(p[3], ix[p[1]])) for p in pl]
            return old_f(*o) if old_f else tuple(o)

        def inv(*bx):
            if old_i:
                c, ox = old_i(*bx)
            else:
                c, ox = True, bx
            cs = [c]
            out = [0] * len(sh)
            for p, o in zip(pl, ox):
                if p[0] == "s":
                    cs.append(s_eq(o, p[1]))
                else:
                    st = p[3]
                    df = s_sub(o, p[2])
                    if st == 1:
                        k = df
                    elif st == -1:
                        k = s_neg(df)
                    else:
                        k = v_floordiv(df, st)
                        cs.append(s_eq(v_mod(df, st), 0))
                    cs += [s_cmp(">=", k, 0), s_cmp("<", k, sh[p[1]])]
                    out[p[1]] = k
            return s_and(*cs), tuple(out)
        return Arr(a.buf, sh, fwd, inv)

    def norm_slice(self, s, n):
        it = self.it
        step = 1 if s.step is None else s.step
        if sym(step):
            step = simp(step)
        if isinstance(step, Fraction) and step.denominator != 1 or isinstance(s.lo, Fraction) or isinstance(s.hi, Fraction):
            raise PyRaise_("TypeError", "slice indices must be integers")
        if sym(step):
            if not it.decide(s_cmp(">", step, 0)):
                raise Unsupported("symbolic slice step")
        elif step == 0:
            raise PyRaise_("ValueError", "slice step")

        def bound(x, dflt):
            if x is None:
                return dflt
            x = self.toidx(x)
            if it.known(s_cmp(">=", x, 0)):
                pass
            elif it.known(s_cmp("<", x, 0)):
                x = s_add(x, n)
                if not it.known(s_cmp(">=", x, 0)):
                    x = s_ite(s_cmp("<", x, 0), 0, x)
            else:
                y = s_add(x, n)
                x = s_ite(s_cmp(">=", x, 0), x, s_ite(s_cmp("<", y, 0), 0, y))
            if not it.known(s_cmp("<=", x, n)):
                x = s_ite(s_cmp(">", x, n), n, x)
            return simp(x) if sym(x) else x
        if sym(step) or step > 0:
            lo, hi = bound(s.lo, 0), bound(s.hi, n)
            ln = s_sub(hi, lo)
            if not it.known(s_cmp(">=", ln, 0)):
                ln = s_ite(s_cmp("<", ln, 0), 0, ln)
            if sym(step) or step != 1:
                ln = v_floordiv(s_sub(s_add(ln, step), 1), step)
            return lo, step, simp(ln) if sym(ln) else ln
        if s.hi is not None:
            # start and stop are clipped to -1..n-1
            def clip(x):
                x = self.toidx(x)
                if it.decide(s_cmp("<", x, 0)):
                    x = s_add(x, n)
                if it.decide(s_cmp("<", x, 0)):
                    return -1
                return s_sub(n, 1) if it.decide(s_cmp(">=", x, n)) else x
            st, hi = s_sub(n, 1) if s.lo is None else clip(s.lo), clip(s.hi)
            if it.decide(s_cmp("<=", st, hi)):
                return 0, step, 0
            ln = s_sub(st, hi)
            if step != -1:
                ln = v_floordiv(s_add(ln, -step - 1), -step)
            return st, step, simp(ln) if sym(ln) else ln
        if s.lo is None:
            st = s_sub(n, 1)
        else:
            x = self.toidx(s.lo)
            if not it.decide(s_cmp(">=", x, 0)):
                x = s_add(x, n)
                if not it.decide(s_cmp(">=", x, 0)):
                    return 0, step, 0
            st = x if it.known(s_cmp("<", x, n)) else s_ite(s_cmp(">=", x, n), s_sub(n, 1), x)
        ln = s_add(st, 1)
        if step != -1:
            ln = v_floordiv(s_add(st, -step), -step)
        return st, step, ln

    def toidx(self, x):
        from interp import Arr
        if isinstance(x, Arr) and x.ndim == 0:
            x = x.at()
        elif isinstance(x, Arr):
            if self.it.decide(s_eq(self.size(x), 1)) and x.dtype in "ib":
                x = x.at(*[0] * x.ndim) if x.sel is None else self.sel_at(x, 0)
            else:
                raise PyRaise_("TypeError", "only length-1 arrays")
        x = num(x)
        if isinstance(x, float) or isinstance(x, Cx) or isinstance(x, Fraction):
            raise PyRaise_("IndexError" if isinstance(x, Fraction) else "TypeError", "index is not an integer")
        if x is None or isinstance(x, str):
            raise PyRaise_("TypeError")
        if sym(x) and x.sort() == RS:
            y = simp(x)
            if sym(y) and y.sort() == RS:
                if z3.is_app_of(y, z3.Z3_OP_TO_REAL):
                    return y.arg(0)
                raise PyRaise_("IndexError", "index is not an integer")
            return y
        return x

    def idx(self, i, n):
        i = self.toidx(i)
        it = self.it
        if it.decide(s_cmp("<", i, 0)):
            i = s_add(i, n)
            if it.decide(s_cmp("<", i, 0)):
                raise PyRaise_("IndexError")
            if not sym(n) and not sym(i) and i >= n:
                raise PyRaise_("IndexError")
            return i
        if it.decide(s_cmp(">=", i, n)):
            raise PyRaise_("IndexError")
        return i

    def sel_at(self, a, r):
        n, p, g = a.sel
        r = simp(r) if sym(r) else r
        if not sym(r) and r == 0:
            return g(FIRST(n, p))
        if sym(r) and req(r, s_sub(a.shape[0], 1)):
            return g(LAST(n, p))
        return g(NTH(r, p))

    def getitem(self, o, ix, check=True):
        from interp import Arr, IterVal, PDict, PList, RangeVal, Slice, SymList, SymStr
        it = self.it
        if isinstance(o, tuple) or isinstance(o, PList):
            items = o if isinstance(o, tuple) else o.items
            if isinstance(ix, Slice):
                lo, hi, st = ix.lo, ix.hi, ix.step
                if any(sym(q) for q in (lo, hi, st)):
                    raise Unsupported("symbolic slice of a list")
                r = list(items)[slice(lo, hi, st)]
                return tuple(r) if isinstance(o, tuple) else it.reg(PList(r))
            i = self.toidx(ix)
            if sym(i):
                i = self.idx(i, len(items))
                return self.elem(tuple(items), i)
            if not -len(items) <= i < len(items):
                raise PyRaise_("IndexError")
            return items[i]
        if isinstance(o, SymList):
            r = self.getitem(o.arr, ix, check)
            return it.reg(SymList(r)) if isinstance(r, Arr) and isinstance(ix, Slice) else r
        if isinstance(o, PDict):
            k = self.dkey(o, ix)
            if k is not None:
                return o.d[k[0]]
            raise PyRaise_("KeyError")
        if isinstance(o, str):
            return o[ix] if isinstance(ix, int) else o[slice(ix.lo, ix.hi, ix.step)]
        if isinstance(o, RangeVal):
            i = self.idx(ix, o.n)
            return s_add(o.start, s_mul(i, o.step))
        if not isinstance(o, Arr):
            if self.isscal(o) or o is None:
                raise PyRaise_("IndexError" if o is not None else "TypeError", "not subscriptable")
            raise Unsupported("subscript of %r" % (o,))
        ixs = ix if isinstance(ix, tuple) else (ix,)
        ixs = tuple(self.asarr(x) if isinstance(x, (PList, SymList)) else x for x in ixs)
        ixs = tuple(x.at() if isinstance(x, Arr) and x.ndim == 0 else x for x in ixs)
        if any(isinstance(x, Arr) for x in ixs):
            return self.fancy_get(o, ixs)
        nd = len([x for x in ixs if x is not None and x is not Ellipsis])
        if nd > o.ndim:
            raise PyRaise_("IndexError", "too many indices")
        full = []
        q = 0
        el = [k for k, x in enumerate(ixs) if x is Ellipsis]
        if not el:
            ixs = ixs + (Ellipsis,)
        for x in ixs:
            if x is Ellipsis:
                for _ in range(o.ndim - nd):
                    full.append(("r", 0, 1, o.shape[q]))
                    q += 1
            elif x is None:
                full.append(("n",))
            elif isinstance(x, Slice):
                full.append(("r",) + tuple(self.norm_slice(x, o.shape[q])))
                q += 1
            else:
                i = self.idx(x, o.shape[q]) if check else x
                full.append(("s", i))
                q += 1
        if all(d[0] == "s" for d in full):
            if o.sel is not None:
                return self.sel_at(o, full[0][1])
            return o.at(*[d[1] for d in full])
        return self.view(o, full)

    def mask_sel(self, m):
        """(n, p) of a boolean 1-D array; for masks over a selection the base indices"""
        if m.sel is not None:
            n, p, g = m.sel
            return n, lambda i: s_and(p(i), g(i)), p
        c = m.content()
        return m.shape[0], c, None

    def fancy_get(self, o, ixs):
        from interp import Arr
        it = self.it
        if len(ixs) == 1:
            m = ixs[0]
            if m.dtype == "b":
                if m.ndim != 1 or o.ndim != 1:
                    if m.ndim == o.ndim == 2:
                        raise Unsupported("two-dimensional mask")
                    if m.ndim == 1 and o.ndim == 2:
                        return self.rows_mask(o, m)
                    raise Unsupported("mask")
                if not it.decide(s_eq(m.shape[0], o.shape[0])):
                    raise PyRaise_("IndexError", "mask length")
                if o.sel is not None:
                    if m.sel is None or self.selkey(m.sel) != self.selkey(o.sel):
                        raise Unsupported("mask of a selection")
                    n, p, g = o.sel
                    mg = m.sel[2]
                    return it.sel_arr(n, lambda i: s_and(p(i), mg(i)), g, o.dtype)
                if m.sel is not None:
                    raise Unsupported("mask given as a selection")
                return it.sel_arr(m.shape[0], m.content(), o.content(), o.dtype)
            if m.dtype not in "i":
                if not sym(m.shape[0]) and m.shape[0] == 0:
                    pass
                else:
                    raise PyRaise_("IndexError", "arrays used as indices must be of integer type")
            if o.ndim == 2:
                return self.rows_fancy(o, m)
            if o.ndim != 1:
                raise PyRaise_("IndexError")
            n = o.shape[0]
            c = o.content()
            if m.sel is not None:
                k, p, g = m.sel
                g = self.check_idx_sel(k, p, g, n)
                return it.sel_arr(k, p, lambda i: c(g(i)), o.dtype)
            mc = m.content()
            mc = self.check_idx(m, mc, n)
            return self.A(m.shape, lambda *r: c(mc(*r)), o.dtype)
        if len(ixs) == 2 and o.ndim == 2:
            a, b = ixs
            from interp import Slice
            if isinstance(a, Arr) and not isinstance(b, (Arr, Slice)):
                return self.fancy_get(self.getitem(o, (Slice(None, None, None), b)), (a,))
            if isinstance(b, Arr) and not isinstance(a, (Arr, Slice)):
                return self.fancy_get(self.getitem(o, (a,)), (b,))
        raise Unsupported("fancy indexing")

    def rows_mask(self, o, m):
        raise Unsupported("rows by mask")

    def rows_fancy(self, o, m):
        if m.sel is not None or m.ndim != 1:
            raise Unsupported("rows by index")
        mc = self.check_idx(m, m.content(), o.shape[0])
        c = o.content()
        return self.A((m.shape[0], o.shape[1]), lambda r, q: c(mc(r), q), o.dtype)

    def check_idx_sel(self, k, p, g, n):
        i = fresh("q")
        h = self.it.hyps.plus(i >= 0, s_cmp("<", i, k), p(i))
        if S.entails(h, s_and(s_cmp(">=", g(i), 0), s_cmp("<", g(i), n))):
            return g
        bad = ANY(k, lambda j: s_and(p(j), s_or(s_cmp("<", g(j), 0), s_cmp(">=", g(j), n))))
        if self.it.decide(bad):
            neg = ANY(k, lambda j: s_and(p(j), s_or(s_cmp("<", g(j), s_neg(n)), s_cmp(">=", g(j), n))))
            if self.it.decide(neg):
                raise PyRaise_("IndexError")
            return lambda j: s_ite(s_cmp("<", g(j), 0), s_add(g(j), n), g(j))
        return g

    def check_idx(self, m, mc, n):
        if m.ndim != 1:
            raise Unsupported("index array of %d dimensions" % m.ndim)
        k = m.shape[0]
        i = fresh("q")
        h = self.it.hyps.plus(i >= 0, s_cmp("<", i, k))
        if S.entails(h, s_and(s_cmp(">=", mc(i), 0), s_cmp("<", mc(i), n))):
            return mc
        bad = ANY(k, lambda j: s_or(s_cmp("<", mc(j), s_neg(n)), s_cmp(">=", mc(j), n)))
        if self.it.decide(bad):
            raise PyRaise_("IndexError")
        return lambda j: s_ite(s_cmp("<", mc(j), 0), s_add(mc(j), n), mc(j))

    def dkey(self, o, x):
        """(stored key,) equal to x on this path, else None"""
        def eq(a, b):
            if isinstance(a, tuple) or isinstance(b, tuple):
                return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(eq(u, v) for u, v in zip(a, b))
            if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
                return type(a) is type(b) and a == b
            if self.isscal(a) and self.isscal(b):
                return self.it.decide(self.it.truth(self.compare("==", a, b)))
            raise Unsupported("dictionary key")
        for k in o.d:
            if eq(k.v if isinstance(k, DKey) else k, x):
                return (k,)
        return None

    def setitem(self, o, ix, v):
        from interp import Arr, PDict, PList, Slice, SymList, thaw
        it = self.it
        thaw(o)
        if isinstance(o, PList):
            i = self.toidx(ix) if not isinstance(ix, Slice) else None
            if i is None or sym(i):
                raise Unsupported("symbolic list store")
            if not -len(o.items) <= i < len(o.items):
                raise PyRaise_("IndexError")
            o.items[i] = v
            return
        if isinstance(o, PDict):
            k = self.dkey(o, ix)
            o.d[k[0] if k is not None else DKey(ix)] = v
            return
        if isinstance(o, SymList):
            o = o.arr
        if not isinstance(o, Arr):
            if isinstance(o, tuple) or self.isscal(o):
                raise PyRaise_("TypeError", "item assignment")
            raise Unsupported("store into %r" % (o,))
        ixs = ix if isinstance(ix, tuple) else (ix,)
        ixs = tuple(self.asarr(x) if isinstance(x, (PList, SymList)) else x for x in ixs)
        ixs = tuple(x.at() if isinstance(x, Arr) and x.ndim == 0 else x for x in ixs)
        if isinstance(v, (PList, SymList, tuple)):
            v = self.asarr(v)
        if isinstance(v, Arr) and v.ndim == 0:
            v = v.at()
        if v is None or isinstance(v, str):
            raise Unsupported("store of %r" % (v,))
        if any(isinstance(x, Arr) for x in ixs):
            return self.fancy_set(o, ixs, v)
        # view of the target region
        if len(ixs) == o.ndim and all(not isinstance(x, Slice) and x is not None and x is not Ellipsis for x in ixs):
            i = tuple(self.idx(x, o.shape[q]) for q, x in enumerate(ixs))
            if isinstance(v, Arr):
                if not it.decide(s_eq(self.size(v), 1)):
                    raise PyRaise_("ValueError", "setting an array element with a sequence")
                v = v.at(*[0] * v.ndim) if v.sel is None else self.sel_at(v, 0)
            v = v
            if o.dtype == "f" and isinstance(v, Cx):
                raise PyRaise_("TypeError", "complex to float")
            self.store(o, lambda *jx: s_and(*[s_eq(a, b) for a, b in zip(jx, i)]), lambda *jx: v)
            return
        tgt = self.getitem(o, ixs)
        self.assign_view(tgt, v)

    def assign_view(self, tgt, v):
        from interp import Arr
        it = self.it
        if not isinstance(v, Arr):
            self.store(tgt, lambda *ix: True, lambda *ix: v)
            return
        # broadcast v to tgt.shape; leading dimensions of length one are dropped
        sh = list(v.shape)
        lead = 0
        while len(sh) - lead > tgt.ndim:
            d = sh[lead]
            if not it.decide(s_eq(d, 1)):
                raise PyRaise_("ValueError", "could not broadcast")
            lead += 1
        c = v.content()
        mask = []
        for q in range(len(sh) - lead):
            d = sh[lead + q]
            t = tgt.shape[tgt.ndim - (len(sh) - lead) + q]
            d = simp(d) if sym(d) else d
            if vkey(d) == vkey(t) or it.known(s_eq(d, t)):
                mask.append(True)
            elif it.decide(s_eq(d, t)):
                mask.append(True)
            elif it.decide(s_eq(d, 1)):
                mask.append(False)
            else:
                raise PyRaise_("ValueError", "could not broadcast")
        off = tgt.ndim - len(mask)
        pre = [0] * lead
        self.store(tgt, lambda *ix: True, lambda *ix: c(*pre, *[ix[off + q] if m else 0 for q, m in enumerate(mask)]))

    def fancy_set(self, o, ixs, v):
        from interp import Arr, Slice
        it = self.it
        if len(ixs) == 2 and o.ndim == 2:
            a, b = ixs
            if isinstance(a, Arr) and not isinstance(b, (Arr, Slice)):
                return self.fancy_set(self.getitem(o, (Slice(None, None, None), b)), (a,), v)
            if isinstance(b, Arr) and not isinstance(a, (Arr, Slice)):
                return self.fancy_set(self.getitem(o, (a,)), (b,), v)
            raise Unsupported("fancy store")
        if len(ixs) != 1 or o.ndim != 1:
            raise Unsupported("fancy store")
        m = ixs[0]
        n = o.shape[0]
        if m.dtype == "b":
            if not it.decide(s_eq(m.shape[0], n)):
                raise PyRaise_("IndexError", "mask length")
            if m.sel is not None:
                raise Unsupported("mask given as a selection")
            if o.sel is not None:
                raise Unsupported("masked store into a selection")
            p = m.content()
            k, g = n, (lambda i: i)
        elif m.dtype == "i" or (not sym(m.shape[0]) and m.shape[0] == 0):
            if m.sel is None:
                # a run of consecutive indices
                ph = T_.bvar(71)
                b = m.content()(ph)
                if sym(b) or not sym(b):
                    a = S._affine(T(b), ph) if sym(b) else None
                if a is None or a[0] != 1:
                    if not sym(m.shape[0]) and m.shape[0] <= 8:
                        for r in range(int(m.shape[0])):
                            vv = v if not isinstance(v, Arr) else v.at(r)
                            self.setitem(o, m.at(r), vv)
                        return
                    q = self.stride(b, ph)
                    if q is None:
                        raise Unsupported("store through an index array")
                    step, start, ln = q, m.content()(0), m.shape[0]
                    if it.decide(s_cmp("<=", ln, 0)):
                        return
                    end = m.content()(s_sub(ln, 1))
                    if not it.decide(s_and(s_cmp(">=", start, 0), s_cmp("<", start, n), s_cmp(">=", end, 0), s_cmp("<", end, n))):
                        raise Unsupported("store through an index array")
                    self.assign_view(self.view(o, [("r", start, step, ln)]), v)
                    return
                start = m.content()(0)
                if not it.decide(s_and(s_cmp(">=", start, 0), s_cmp("<=", s_add(start, m.shape[0]), n))):
                    raise PyRaise_("IndexError")
                from interp import Slice
                self.assign_view(self.view(o, [("r", start, 1, m.shape[0])]), v)
                return
            k, p, g = m.sel
            g = self.check_idx_sel(k, p, g, n)
        else:
            raise PyRaise_("IndexError")
        ph = T_.bvar(71)
        b = g(ph)
        a = S._affine(T(b), ph) if sym(b) else None
        if a is None or a[0] != 1:
            raise Unsupported("store through computed indices")
        shift = s_sub(b, ph)
        shift = simp(shift) if sym(shift) else shift
        # note: shift does not depend on the placeholder
        p = T_.memo_clos(p)
        cnt = CNT(k, p)

        def region(j):
            i = s_sub(j, shift)
            return s_and(s_cmp(">=", i, 0), s_cmp("<", i, k), p(i))
        if isinstance(v, Arr):
            if v.sel is not None and self.selkey(v.sel) == self.selkey((k, p, None)):
                vg = v.sel[2]
                val = lambda j: vg(s_sub(j, shift))
            else:
                if v.ndim == 2 and it.decide(s_eq(v.shape[0], 1)):
                    v = self.getitem(v, 0)
                if v.ndim != 1:
                    raise Unsupported("fancy store of a matrix")
                vc = v.content()
                if it.decide(s_eq(v.shape[0], cnt)):
                    val = lambda j: vc(CNT(s_sub(j, shift), p))
                elif it.decide(s_eq(v.shape[0], 1)):
                    val = lambda j: vc(0)
                else:
                    raise PyRaise_("ValueError", "shape mismatch")
        else:
            val = lambda j: v
        self.store(o, region, val)

    def stride(self, b, ph):
        """b == c*ph + d with an integer c != 0 and d free of ph: c, else None"""
        if not sym(b):
            return None
        c = s_sub(T_.dsubst(b, {str(ph.decl().name()): s_add(ph, 1)}), b)
        c = simp(c) if sym(c) else c
        return c if not sym(c) and c != 0 and c == int(c) else None

    # ------------------------------------------------------------------ attributes
    def extattr(self, o, name):
        from interp import Ext
        p = o.path + "." + name
        c = {"numpy.pi": T_.PI, "math.pi": T_.PI, "numpy.inf": INF, "numpy.Inf": INF, "math.inf": INF, "numpy.nan": NAN, "numpy.NaN": NAN, "math.nan": NAN,
             "numpy.newaxis": None, "numpy.e": None}
        if p in c:
            if p == "numpy.e":
                return T_.u_exp(1)
            return c[p]
        if p == "sys.float_info.epsilon":
            return Fraction(1, 2 ** 52)
        if o.path == "numpy.finfo()" and name == "eps":
            return Fraction(1, 2 ** 52)
        return Ext(p)

    def attr(self, o, name):
        from interp import Arr, ExtBound, Opaque, PDict, PList, SymList, SymStr
        if isinstance(o, Arr):
            if name == "shape":
                return tuple(o.shape)
            if name == "size":
                return self.size(o)
            if name == "ndim":
                return o.ndim
            if name == "T":
                return self.transpose(o)
            if name == "real":
                return self.ew(v_re, "f", o) if o.dtype == "c" else o
            if name == "imag":
                return self.ew(v_im, "f", o)
            if name == "dtype":
                return Dt(o.dtype)
            if name in METHODS:
                return ExtBound(o, name)
            raise Unsupported("array attribute %s" % name)
        if self.isscal(o):
            if name == "real":
                return v_re(o)
            if name == "imag":
                return v_im(o)
            if name == "size":
                return 1
            if name == "shape":
                return ()
            if name == "ndim":
                return 0
            if name in METHODS or name in ("is_integer", "conjugate"):
                return ExtBound(o, name)
            raise PyRaise_("AttributeError", name)
        if isinstance(o, (PList, SymList, PDict, str, SymStr, tuple)):
            if name in ("shape", "size", "ndim", "T", "real", "imag", "flatten", "astype", "dtype", "reshape"):
                raise PyRaise_("AttributeError", name)
            return ExtBound(o, name)
        if isinstance(o, Opaque):
            return ExtBound(o, name)
        if o is None:
            raise PyRaise_("AttributeError", name)
        if isinstance(o, Dt):
            if name == "kind":
                return o.c
            raise Unsupported("dtype attribute")
        raise Unsupported("attribute %s of %r" % (name, o))

    def transpose(self, o):
        from interp import Arr
        if o.ndim < 2:
            return o
        f, i = o.fwd, o.inv
        return Arr(o.buf, tuple(reversed(o.shape)), lambda a, b: f(b, a) if f else (b, a), lambda *bx: ((lambda r: (r[0], tuple(reversed(r[1]))))(i(*bx)) if i else (True, tuple(reversed(bx)))))

    def method(self, o, name, args, kw):
        from interp import Opaque
        if isinstance(o, Opaque) and o.what.startswith("matplotlib"):
            return Opaque(o.what + "." + name)
        return self.heeded("method %s" % name, lambda a, k: self.method_(o, name, a, k), args, kw)

    def method_(self, o, name, args, kw):
        from interp import Arr, Opaque, PDict, PList, SymList, SymStr, thaw
        it = self.it
        if name in ("append", "extend", "pop", "reverse", "insert", "sort", "update", "remove"):
            thaw(o)
        if isinstance(o, str):
            if name in ("lower", "upper", "strip", "format", "title", "capitalize", "casefold"):
                if name == "format":
                    return "<formatted>"
                return getattr(o, name)(*args)
            if name in ("startswith", "endswith"):
                return getattr(o, name)(*args)
            if name == "join":
                return "<formatted>"
            raise Unsupported("str.%s" % name)
        if isinstance(o, SymStr):
            if name in ("lower", "upper", "strip", "casefold"):
                return SymStr(o.name, o.ops + (name,))
            raise Unsupported("method of an unknown string")
        if isinstance(o, PList):
            if name == "append":
                o.items.append(args[0])
                return None
            if name == "extend":
                o.items += self.concrete_items(args[0])
                return None
            if name == "copy":
                return it.reg(PList(o.items))
            if name == "pop" and (not args or not sym(args[0])):
                return o.items.pop(*args)
            if name == "reverse":
                o.items.reverse()
                return None
            if name == "insert" and not sym(args[0]):
                o.items.insert(args[0], args[1])
                return None
            raise Unsupported("list.%s" % name)
        if isinstance(o, SymList):
            if name == "append":
                o.arr = self.append1(o.arr, args[0])
                return None
            if name == "copy":
                return it.reg(SymList(o.arr))
            raise Unsupported("list.%s" % name)
        if isinstance(o, PDict):
            if name == "get":
                k = self.dkey(o, args[0])
                return o.d[k[0]] if k is not None else args[1] if len(args) > 1 else None
            if name == "setdefault":
                k = self.dkey(o, args[0])
                if k is None:
                    thaw(o)
                    k = (DKey(args[0]),)
                    o.d[k[0]] = args[1] if len(args) > 1 else None
                return o.d[k[0]]
            if name == "clear":
                thaw(o)
                o.d = {}
                return None
            if name == "pop":
                thaw(o)
                k = self.dkey(o, args[0])
                if k is None:
                    if len(args) > 1:
                        return args[1]
                    raise PyRaise_("KeyError")
                return o.d.pop(k[0])
            if name == "items":
                return tuple((k.v if isinstance(k, DKey) else k, v) for k, v in o.d.items())
            if name == "keys":
                return tuple(k.v if isinstance(k, DKey) else k for k in o.d)
            if name == "values":
                return tuple(o.d.values())
            raise Unsupported("dict.%s" % name)
        if isinstance(o, Opaque):
            return Opaque(o.what + "." + name)
        if self.isscal(o):
            if name in ("astype",):
                return self.cast_scalar(o, self.conv_dtype(args[0]))
            if name == "is_integer":
                return s_eq(s_floor(o), o)
            if name in ("conjugate", "conj"):
                return v_conj(o)
            if name in ("item", "copy"):
                return o
            if name in METHODS:
                return self.call("numpy." + METHODS[name], [o] + args, kw)
            raise Unsupported("method %s of a number" % name)
        if isinstance(o, Arr):
            if name == "astype":
                d = self.conv_dtype(args[0] if args else kw.get("dtype"))
                if kw.get("copy") is False and d == o.dtype:
                    return o
                return self.ew(lambda v: self.cast_scalar(v, d), d, o) if o.ndim else self.A((), lambda: self.cast_scalar(o.at(), d), d)
            if name == "tolist":
                if o.ndim != 1:
                    raise Unsupported("tolist")
                return it.reg(SymList(self.copy(o)))
            if name == "item":
                if not it.decide(s_eq(self.size(o), 1)):
                    raise PyRaise_("ValueError")
                return o.at(*[0] * o.ndim)
            if name == "sort":
                r = self.np_sort([o], {})
                c = r.content()
                self.store(o, lambda *ix: True, c)
                return None
            if name == "fill":
                v = args[0]
                self.store(o, lambda *ix: True, lambda *ix: v)
                return None
            if name == "reshape":
                sh = args[0] if len(args) == 1 and isinstance(args[0], (tuple, PList)) else tuple(args)
                return self.reshape(o, sh)
            if name in METHODS:
                return self.call("numpy." + METHODS[name], [o] + args, kw)
        raise Unsupported("method %s" % name)

    def cast_scalar(self, v, d):
        if d == "c":
            return cx(v)
        if d == "f" and isinstance(v, Cx):
            return v.re
        return self.cast(v, d)

    def copy(self, o):
        c = o.content()
        return self.A(o.shape, c, o.dtype, o.sel)

    def reshape(self, a, sh):
        from interp import Arr, PList
        it = self.it
        if isinstance(sh, PList):
            sh = tuple(sh.items)
        if not isinstance(sh, tuple):
            sh = (sh,)
        sh = [simp(x) if sym(x) else x for x in (self.toidx(x) for x in sh)]
        size = self.size(a)
        if any(not sym(x) and x == -1 for x in sh):
            q = [k for k, x in enumerate(sh) if not sym(x) and x == -1][0]
            rest = 1
            for k, x in enumerate(sh):
                if k != q:
                    rest = s_mul(rest, x)
            if not sym(rest) and rest == 1:
                sh[q] = size
            else:
                if sym(rest) and not it.known(s_cmp(">", rest, 0)):
                    raise Unsupported("reshape")
                # exact division is required
                val = self.divide_exact(size, rest)
                if val is None:
                    qd = v_floordiv(size, rest)
                    if not it.decide(s_eq(s_mul(qd, rest), size)):
                        raise PyRaise_("ValueError", "reshape")
                    val = qd
                sh[q] = val
        tot = 1
        for x in sh:
            tot = s_mul(tot, x)
        if not req(tot, size) and not it.decide(s_eq(tot, size)):
            raise PyRaise_("ValueError", "cannot reshape")
        sh = tuple(sh)
        of, oi = a.fwd, a.inv

        def flat_to(shape, k):
            """multi-index of a flat index"""
            if len(shape) == 1:
                return (k,)
            if len(shape) == 2:
                r, c = shape
                if not sym(c) and c == 1:
                    return (k, 0)
                if not sym(r) and r == 1:
                    return (0, k)
                return (v_floordiv(k, c), v_mod(k, c))
            raise Unsupported("reshape to %d dimensions" % len(shape))

        def to_flat(shape, ix):
            if len(shape) == 1:
                return ix[0]
            if len(shape) == 2:
                r, c = shape
                if not sym(c) and c == 1:
                    return ix[0]
                if not sym(r) and r == 1:
                    return ix[1]
                return s_add(s_mul(ix[0], c), ix[1])
            raise Unsupported("reshape")
        if a.ndim == 0:
            v = a.at()
            return self.A(sh, lambda *ix: v, a.dtype)
        osh = a.shape
        if len(sh) > 2 or len(osh) > 2:
            raise Unsupported("reshape")

        def fwd(*ix):
            o = flat_to(osh, to_flat(sh, ix))
            return of(*o) if of else o

        def inv(*bx):
            c, ox = oi(*bx) if oi else (True, bx)
            return c, flat_to(sh, to_flat(osh, ox))
        if a.sel is not None and len(sh) == 1:
            return a
        return Arr(a.buf, sh, fwd, inv)

    def divide_exact(self, a, b):
        try:
            n, d = ratio(a)
            m, e = ratio(b)
            n2, d2 = T_.norm_r(T_.p_mul(n, e), T_.p_mul(d, m))
            if d2 == T_.p_const(1):
                return S.p_int(n2)
        except Unsupported:
            pass
        return None

    def append1(self, a, v):
        """1-D array a with one more element"""
        n = a.shape[0]
        if a.buf.tag is not None and a.buf.tag[0] in ("hav", "app") and a.fwd is None:
            base, vs = (a.buf.tag[1], a.buf.tag[2]) if a.buf.tag[0] == "app" else (a.buf.tag[1], ())
            r = self.A((s_add(n, 1),), lambda i: self._no("element of a list under construction"), promo(a.dtype, sdt(v)) if a.dtype != "o" else "o")
            r.buf.tag = ("app", base, vs + (v,))
            return r
        c = a.content()
        if not sym(n) and n == 0:
            return self.A((1,), lambda i: v, promo("f", sdt(v)))
        return self.A((s_add(n, 1),), lambda i: v_ite(s_cmp("<", i, n), c(i), v), promo(a.dtype, sdt(v)))

    def _no(self, why):
        raise Unsupported(why)

    # ------------------------------------------------------------------ calls
    def heeded(self, what, f, args, kw):
        """a contract that did not look at one of the arguments does not cover the call"""
        a = args if isinstance(args, Args) else Args(args)
        k = kw if isinstance(kw, Kw) else Kw(kw)
        r = f(a, k)
        for i, v in enumerate(list.__iter__(a)):
            if i not in a.seen and v is not None:
                raise Unsupported("%s: argument %d is not covered by its contract" % (what, i + 1))
        for q, v in dict.items(k):
            if q not in k.seen and v is not None:
                raise Unsupported("%s: argument %s is not covered by its contract" % (what, q))
        return r

    def call(self, path, args, kw):
        if path.startswith(("warnings.", "logging.")) or path == "builtins.print" or path.startswith("builtins.") and path.endswith(("Warning", "Error")):
            return self.call_(path, args, kw)
        return self.heeded(path, lambda a, k: self.call_(path, a, k), args, kw)

    def call_(self, path, args, kw):
        from interp import Opaque
        short = path
        for pre in ("builtins.", "numpy.", "scipy.", "math.", "copy.", "warnings."):
            pass
        key = path.replace(".", "_")
        f = getattr(self, "f_" + key, None)
        if key in BY_DEF and BY_DEF[key](args, kw):
            return self.by_definition(key, path, args, kw)
        if f is not None:
            return f(args, kw)
        mod, nm = path.rsplit(".", 1) if "." in path else ("", path)
        if mod in ("numpy", "math", "cmath") and nm in UNARY:
            fn, dt = UNARY[nm]
            if kw and set(kw) - {"dtype"}:
                raise Unsupported("%s with keywords" % nm)
            v = args[0]
            from interp import Arr, PList, SymList
            if isinstance(v, (PList, SymList, tuple)):
                v = self.asarr(v)
            if v is None or isinstance(v, str):
                raise PyRaise_("TypeError")
            if isinstance(v, Arr):
                if mod == "math":
                    raise Unsupported("math function of an array")
                d = dt if dt else v.dtype
                if nm in ("abs", "absolute", "real", "imag"):
                    d = "f" if v.dtype == "c" else v.dtype
                elif dt == "f":
                    d = "c" if v.dtype == "c" else "f"
                return self.ew(fn, d, v)
            if not self.isscal(v):
                raise Unsupported("%s of %r" % (nm, v))
            r = fn(v)
            if nm == "sqrt" and sym(r) and z3.is_app_of(r, z3.Z3_OP_ITE):
                # the root of a square of which the sign is known here
                if self.it.known(r.arg(0)):
                    r = conc(r.arg(1))
                elif self.it.known(s_not(r.arg(0))):
                    r = conc(r.arg(2))
            return r
        if mod == "numpy" and nm in OPNAMES:
            if kw or len(args) != 2:
                raise Unsupported("ufunc arguments")
            a, b = args
            from interp import Arr, PList, SymList
            a = self.asarr(a) if isinstance(a, (PList, SymList, tuple)) else a
            b = self.asarr(b) if isinstance(b, (PList, SymList, tuple)) else b
            return self.binop(OPNAMES[nm], a, b)
        if mod == "numpy" and nm in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal"):
            return self.compare({"less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "equal": "==", "not_equal": "!="}[nm], *args)
        if mod == "numpy" and nm in ("logical_and", "logical_or", "bitwise_and", "bitwise_or"):
            f = s_and if nm.endswith("and") else s_or
            return self.ew(lambda x, y: f(self.it.truth(x), self.it.truth(y)), "b", *args)
        if mod == "numpy" and nm in ("logical_not", "invert"):
            return self.ew(lambda x: s_not(self.it.truth(x)), "b", args[0])
        if mod == "numpy" and nm in ("maximum", "minimum", "fmax", "fmin"):
            op = ">=" if "max" in nm else "<="
            a, b = args
            return self.ew(lambda x, y: self.maxi(x, y, op), promo(self.dtype_of(a), self.dtype_of(b)), a, b)
        if nm == "reduce" and mod in ("numpy.add", "numpy.maximum", "numpy.minimum", "numpy.logical_and", "numpy.logical_or", "numpy.multiply"):
            if len(args) > 1 or set(kw) - {"axis"}:
                raise Unsupported("reduce arguments")
            x = self.asarr(args[0])
            if x.ndim > 1 and "axis" not in kw:
                kw = {"axis": 0}
            if "axis" in kw and kw["axis"] is None or x.ndim == 1:
                kw = {}
            return self.call("numpy." + {"add": "sum", "maximum": "max", "minimum": "min", "logical_and": "all", "logical_or": "any", "multiply": "prod"}[mod[6:]], [x], kw)
        if mod in ("warnings", "logging"):
            return Opaque("catch_warnings") if nm == "catch_warnings" else None
        if mod == "builtins" and nm.endswith("Warning"):
            return "warning"
        if path.startswith("matplotlib"):
            list(args), kw.items()
            self.note("matplotlib: reads the arrays it is given")
            return Opaque("matplotlib")
        if mod == "numpy" and nm in ("float64", "double"):
            return self.f_builtins_float(args, kw)
        if mod == "numpy" and nm in ("int64", "intp", "int_"):
            return self.f_builtins_int(args, kw)
        if mod == "numpy" and nm == "complex128":
            return cx(args[0])
        if mod == "numpy" and nm == "bool_":
            return self.it.truth(args[0])
        return self.by_definition(key, path, args, kw)

    def by_definition(self, key, path, args, kw):
        """a library function by its definition in npdefs.py"""
        it = self.it
        m = it.prog.defs()
        try:
            f = it.module_get(m, key)
        except KeyError:
            raise Unsupported("library function %s" % path)
        ar = f.node.args
        names = [x.arg for x in ar.args]
        if set(dict.keys(kw)) - set(names) or len(args) > len(names) and not ar.vararg or len(args) + len(kw) < len(names) - len(ar.defaults):
            raise Unsupported("%s: arguments not covered by its definition" % path)
        self.note("%s: by definition (npdefs.%s)" % (path, key))
        n = set(it.used)
        r = it.call(f, list(args), dict(kw.items()))
        for q in set(it.used) - n:
            if q.startswith("npdefs."):
                it.used.pop(q)
        return r

    def maxi(self, x, y, op=">="):
        if isinf(x) or isinf(y):
            if not sym(x) and not sym(y):
                return x if v_cmp(op, x, y) else y
            f, o = (x, y) if isinf(x) else (y, x)
            big = f > 0
            return f if big == (op == ">=") else o
        return v_ite(v_cmp(op, x, y), x, y)

    # -------------------------------------------------- builtins
    def f_builtins_len(self, a, kw):
        from interp import Arr, PDict, PList, SymList
        o = a[0]
        if isinstance(o, Arr):
            if o.ndim == 0:
                raise PyRaise_("TypeError", "len() of unsized object")
            return o.shape[0]
        if isinstance(o, SymList):
            return o.arr.shape[0]
        if self.isscal(o) or o is None:
            raise PyRaise_("TypeError")
        return self.iterate(o)[0]

    def f_builtins_abs(self, a, kw):
        return self.call("numpy.abs", a, kw)

    def f_builtins_int(self, a, kw):
        from interp import Arr
        v = a[0] if a else 0
        if isinstance(v, Arr):
            if not self.it.decide(s_eq(self.size(v), 1)):
                raise PyRaise_("TypeError")
            v = v.at(*[0] * v.ndim) if v.sel is None else self.sel_at(v, 0)
        if isinstance(v, float):
            raise PyRaise_("ValueError" if v != v else "OverflowError")
        if isinstance(v, (Cx, str)) or v is None:
            raise PyRaise_("TypeError")
        return s_trunc(v)

    def f_builtins_float(self, a, kw):
        from interp import Arr
        v = a[0] if a else 0
        if isinstance(v, str):
            if v.lower() in ("inf", "nan", "-inf"):
                return float(v)
            return Fraction(v)
        if isinstance(v, Arr):
            if not self.it.decide(s_eq(self.size(v), 1)):
                raise PyRaise_("TypeError")
            v = v.at(*[0] * v.ndim) if v.sel is None else self.sel_at(v, 0)
        if isinstance(v, Cx) or v is None:
            raise PyRaise_("TypeError")
        v = num(v)
        if sym(v) and v.sort() == IS:
            return R(v)
        return Fraction(v) if isinstance(v, int) else v

    def f_builtins_complex(self, a, kw):
        return v_add(cx(a[0]), v_mul(Cx(0, 1), a[1] if len(a) > 1 else 0))

    def f_builtins_bool(self, a, kw):
        return self.it.truth(a[0])

    def f_builtins_str(self, a, kw):
        return "<formatted>"

    f_builtins_repr = f_builtins_str

    def f_builtins_print(self, a, kw):
        return None

    def f_builtins_isinstance(self, a, kw):
        from interp import Arr, ClassVal, Ext, Inst, PDict, PList, SymList, SymStr
        v, t = a
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if isinstance(x, ClassVal):
                if isinstance(v, Inst):
                    c = [v.cls]
                    while c:
                        q = c.pop()
                        if q is x:
                            return True
                        c += [b for b in q.bases if isinstance(b, ClassVal)]
                continue
            p = x.path if isinstance(x, Ext) else ""
            n = p.split(".")[-1]
            if n in ("Number", "Real", "Complex") and self.isscal(v):
                if n != "Real" or not isinstance(v, Cx):
                    return True
            if n in ("float", "float64", "floating") and self.isscal(v) and sdt(v) == "f":
                return True
            if n in ("int", "Integral", "integer", "int64") and self.isscal(v) and sdt(v) in ("i", "b"):
                return True
            if n in ("bool", "bool_") and isbool(v):
                return True
            if n in ("complex", "complex128") and isinstance(v, Cx):
                return True
            if n == "ndarray" and isinstance(v, Arr):
                return True
            if n == "list" and isinstance(v, (PList, SymList)):
                return True
            if n == "tuple" and isinstance(v, tuple):
                return True
            if n == "dict" and isinstance(v, PDict):
                return True
            if n == "str" and isinstance(v, (str, SymStr)):
                return True
            if n in ("Sequence", "Iterable", "generic"):
                raise Unsupported("isinstance %s" % n)
        return False

    def f_builtins_hasattr(self, a, kw):
        from interp import PyRaise
        try:
            self.it.getattr(a[0], a[1])
            return True
        except PyRaise as e:
            if e.name == "AttributeError":
                return False
            raise

    def f_builtins_getattr(self, a, kw):
        from interp import PyRaise
        try:
            return self.it.getattr(a[0], a[1])
        except PyRaise as e:
            if e.name == "AttributeError" and len(a) > 2:
                return a[2]
            raise

    def f_builtins_setattr(self, a, kw):
        self.it.setattr(a[0], a[1], a[2])

    def f_builtins_type(self, a, kw):
        from interp import Inst
        if isinstance(a[0], Inst):
            return a[0].cls
        raise Unsupported("type()")

    def f_builtins_range(self, a, kw):
        from interp import RangeVal
        a = [self.toidx(x) for x in a]
        if any(isinstance(x, Fraction) for x in a):
            raise PyRaise_("TypeError")
        st, sp, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        return RangeVal(st, self.arange_len(st, sp, step), step)

    def arange_len(self, st, sp, step):
        d = s_sub(sp, st)
        if isint(d) and not sym(step) and step in (1, -1):
            n = s_mul(d, step)
        elif isint(d) and isint(step) and not sym(step):
            n = v_floordiv(s_add(d, step - (1 if step > 0 else -1)), step)
        else:
            n = s_ceil(s_div(d, step))
        n = simp(n) if sym(n) else n
        if not sym(n):
            return max(0, n)
        if self.it.known(s_cmp(">=", n, 0)):
            return n
        return s_ite(s_cmp(">=", n, 0), n, 0)

    def f_builtins_enumerate(self, a, kw):
        from interp import IterVal
        n, item = self.iterate(a[0])
        st = a[1] if len(a) > 1 else kw.get("start", 0)
        return IterVal(n, lambda i: (s_add(i, st), item(i)))

    def f_builtins_zip(self, a, kw):
        from interp import IterVal
        its = [self.iterate(x) for x in a]
        n = its[0][0]
        for m, _ in its[1:]:
            if vkey(n) == vkey(m):
                continue
            if self.it.known(s_cmp("<=", n, m)):
                continue
            if self.it.known(s_cmp("<=", m, n)):
                n = m
                continue
            n = m if self.it.decide(s_cmp("<", m, n)) else n
        return IterVal(n, lambda i: tuple(f(i) for _m, f in its))

    def f_builtins_map(self, a, kw):
        if len(a) != 2 or kw:
            raise Unsupported("map")
        return self.it.map_over(a[0], a[1])

    def f_builtins_reversed(self, a, kw):
        from interp import IterVal
        n, item = self.iterate(a[0])
        return IterVal(n, lambda i: item(s_sub(s_sub(n, 1), i)))

    def f_builtins_list(self, a, kw):
        from interp import PList, SymList
        if not a:
            return self.it.reg(PList([]))
        n, item = self.iterate(a[0])
        n = simp(n) if sym(n) else n
        if not sym(n) and n <= 64:
            return self.it.reg(PList([item(i) for i in range(int(n))]))
        v = item(0)
        if not self.isscal(v):
            raise Unsupported("list of objects")
        return self.it.reg(SymList(self.A((n,), item, sdt(v))))

    def f_builtins_tuple(self, a, kw):
        return tuple(self.concrete_items(a[0])) if a else ()

    def f_builtins_dict(self, a, kw):
        from interp import PDict
        if a:
            raise Unsupported("dict()")
        return self.it.reg(PDict(kw))

    def f_builtins_sorted(self, a, kw):
        from interp import SymList
        if kw.get("key") is None and not kw.get("reverse"):
            return self.it.reg(SymList(self.np_sort([self.asarr(a[0])], {})))
        from interp import Arr
        xs = a[0] if isinstance(a[0], Arr) else self.asarr(self.f_builtins_list([a[0]], {}))
        keys = self.asarr(self.it.map_over(kw["key"], a[0])) if kw.get("key") is not None else xs
        if xs.ndim != 1 or keys.ndim != 1:
            raise Unsupported("sorted")
        if kw.get("reverse"):
            # a reversed stable sort keeps the order of equal keys, as does ordering by the negated keys
            keys = self.ew(v_neg, keys.dtype, keys)
        order, c = self.f_numpy_argsort([keys], {"kind": "stable"}).content(), xs.content()
        return self.it.reg(SymList(self.A((xs.shape[0],), lambda r: c(order(r)), xs.dtype)))

    def f_builtins_round(self, a, kw):
        if len(a) > 1:
            raise Unsupported("round to digits")
        return s_round(a[0])

    def f_builtins_pow(self, a, kw):
        return self.binop("Pow", a[0], a[1])

    def f_builtins_divmod(self, a, kw):
        return (self.binop("FloorDiv", a[0], a[1]), self.binop("Mod", a[0], a[1]))

    def f_builtins_slice(self, a, kw):
        from interp import Slice
        if len(a) == 1:
            return Slice(None, a[0], None)
        return Slice(a[0], a[1], a[2] if len(a) > 2 else None)

    def minmax(self, a, kw, mx):
        from interp import Arr
        if set(kw) - {"default"}:
            raise Unsupported("max with key")
        if len(a) > 1:
            r = a[0]
            for x in a[1:]:
                if isinstance(x, Arr) or isinstance(r, Arr):
                    raise Unsupported("max of arrays")
                r = self.maxi(r, x, ">=" if mx else "<=")
            return r
        n, item = self.iterate(a[0])
        n = simp(n) if sym(n) else n
        if not sym(n) and n <= 64:
            if n == 0:
                if "default" in kw:
                    return kw["default"]
                raise PyRaise_("ValueError", "empty sequence")
            r = item(0)
            for i in range(1, int(n)):
                r = self.maxi(r, item(i), ">=" if mx else "<=")
            return r
        if self.it.decide(s_cmp("<=", n, 0)):
            if "default" in kw:
                return kw["default"]
            raise PyRaise_("ValueError", "empty sequence")
        arr = a[0].arr if not isinstance(a[0], Arr) and hasattr(a[0], "arr") else a[0]
        if isinstance(arr, Arr):
            return self.extreme(arr, mx)
        return self.ext_value(n, item, mx)

    def ext_value(self, n, fn, mx):
        f = fn if mx else (lambda i: v_neg(fn(i)))
        if isinstance(fn(T_.bvar(72)), Cx):
            raise Unsupported("order of complex numbers")
        return fn(ARGMAX(n, f))

    def extreme(self, arr, mx):
        if arr.ndim != 1:
            if arr.ndim == 2 and not sym(arr.shape[0]) and arr.shape[0] == 1:
                arr = self.getitem(arr, 0)
            else:
                c, m = arr.content(), arr.shape[1]
                return self.ext_value(arr.shape[0], lambda i: self.ext_value(m, lambda j: c(i, j), mx), mx)
        if arr.sel is not None:
            n, p, g = arr.sel
            if vkey(g(T_.bvar(71))) == vkey(T_.bvar(71)):
                return (LAST if mx else FIRST)(n, p)
            return g(ARGMAXP(n, g if mx else (lambda i: v_neg(g(i))), p))
        return self.ext_value(arr.shape[0], arr.content(), mx)

    def f_builtins_max(self, a, kw):
        return self.minmax(a, kw, True)

    def f_builtins_min(self, a, kw):
        return self.minmax(a, kw, False)

    def f_builtins_sum(self, a, kw):
        n, item = self.iterate(a[0])
        r = self.sum_of(a[0], n, item)
        if len(a) > 1 or "start" in kw:
            r = self.binop("Add", r, a[1] if len(a) > 1 else kw["start"])
        return r

    def sum_of(self, o, n, item):
        from interp import Arr, SymList
        n = simp(n) if sym(n) else n
        if not sym(n) and n <= 64:
            r = 0
            for i in range(int(n)):
                r = self.binop("Add", r, item(i))
            return r
        if isinstance(o, SymList):
            o = o.arr
        if isinstance(o, Arr) and o.ndim == 1:
            return self.sum1(o)
        v = item(T_.bvar(72))
        if isinstance(v, Arr):
            if v.ndim != 1:
                raise Unsupported("sum of matrices")
            c = o.content()
            return self.A((o.shape[1],), lambda j: SUM(n, lambda i: c(i, j)), o.dtype)
        return SUM(n, item)

    def sum1(self, a):
        if a.sel is not None:
            n, p, g = a.sel
            return SUM(n, lambda i: v_ite(p(i), num(g(i)) if not isinstance(g(i), Cx) else g(i), 0 if not isinstance(g(i), Cx) else Cx(0, 0)))
        c = a.content()
        return SUM(a.shape[0], lambda i: num(c(i)) if not isinstance(c(i), Cx) else c(i))

    def f_builtins_all(self, a, kw):
        return self.allany(a[0], True)

    def f_builtins_any(self, a, kw):
        return self.allany(a[0], False)

    def allany(self, o, al):
        from interp import Arr
        if isbool(o) or self.isscal(o):
            return self.it.truth(o)
        if isinstance(o, Arr) and o.ndim == 0:
            return self.it.truth(o.at())
        if isinstance(o, Arr) and o.ndim == 2:
            r, c = o.shape
            if not sym(r) and r == 1:
                return self.allany(self.getitem(o, 0), al)
            cc = o.content()
            inner = lambda i: (ALL if al else ANY)(c, lambda j: self.it.truth(cc(i, j)))
            return (ALL if al else ANY)(r, inner)
        n, item = self.iterate(o)
        tr = self.it.truth
        if isinstance(o, Arr) and o.sel is not None:
            n, p, g = o.sel
            return ALL(n, lambda i: s_or(s_not(p(i)), tr(g(i)))) if al else ANY(n, lambda i: s_and(p(i), tr(g(i))))
        return (ALL if al else ANY)(n, lambda i: tr(item(i)))

    # -------------------------------------------------- numpy: creation
    def f_numpy_asarray(self, a, kw):
        v = a[0]
        dt = a[1] if len(a) > 1 else kw.get("dtype")
        r = self.asarr(v)
        if dt is not None:
            d = self.conv_dtype(dt)
            if d != r.dtype:
                r = self.method(r, "astype", [dt], {})
        return r

    f_numpy_asanyarray = f_numpy_asarray
    f_numpy_ascontiguousarray = f_numpy_asarray

    def f_numpy_array(self, a, kw):
        from interp import Arr
        r = self.asarr(a[0])
        dt = a[1] if len(a) > 1 else kw.get("dtype")
        if dt is not None and self.conv_dtype(dt) != r.dtype:
            return self.method(r, "astype", [dt], {})
        if "ndmin" in kw:
            raise Unsupported("ndmin")
        return self.copy(r)

    def f_numpy_copy(self, a, kw):
        return self.copy(self.asarr(a[0]))

    def f_copy_deepcopy(self, a, kw):
        from interp import Arr, PList
        v = a[0]
        if isinstance(v, Arr):
            return self.copy(v)
        if self.isscal(v) or v is None or isinstance(v, str):
            return v
        if isinstance(v, PList):
            return self.it.reg(PList([self.f_copy_deepcopy([x], {}) for x in v.items]))
        raise Unsupported("deepcopy")

    f_copy_copy = f_copy_deepcopy

    def shape_arg(self, s):
        from interp import PList
        if isinstance(s, PList):
            s = tuple(s.items)
        if not isinstance(s, tuple):
            s = (s,)
        out = []
        for d in s:
            d = self.toidx_shape(d)
            if self.it.known(s_cmp(">=", d, 0)) if sym(d) else d >= 0:
                out.append(d)
            elif self.it.decide(s_cmp("<", d, 0)):
                raise PyRaise_("ValueError", "negative dimensions")
            else:
                out.append(d)
        return tuple(out)

    def toidx_shape(self, d):
        if isinstance(d, (Fraction, float)):
            raise PyRaise_("TypeError", "shape must be integer")
        return self.toidx(d)

    def filled(self, sh, v, dt):
        return self.A(self.shape_arg(sh), lambda *ix: v, dt)

    def dt_arg(self, a, kw, pos=1, default="f"):
        d = a[pos] if len(a) > pos else kw.get("dtype")
        return default if d is None else self.conv_dtype(d)

    def f_numpy_zeros(self, a, kw):
        d = self.dt_arg(a, kw)
        return self.filled(a[0] if a else kw["shape"], Cx(0, 0) if d == "c" else False if d == "b" else 0, d)

    def f_numpy_ones(self, a, kw):
        d = self.dt_arg(a, kw)
        return self.filled(a[0] if a else kw["shape"], Cx(1, 0) if d == "c" else True if d == "b" else 1, d)

    def f_numpy_full(self, a, kw):
        d = self.dt_arg(a, kw, 2, sdt(a[1]))
        return self.filled(a[0], a[1], d)

    _emp = [0]

    def f_numpy_empty(self, a, kw):
        d = self.dt_arg(a, kw)
        sh = self.shape_arg(a[0])
        self._emp[0] += 1
        if any(not sym(x) and x == 0 for x in sh):
            return self.A(sh, lambda *ix: 0, d)
        k = len(sh)
        nm = "uninit!%d" % self._emp[0]
        f = z3.Function(nm, *([IS] * k + [RS]))
        if d == "c":
            g = z3.Function(nm + "i", *([IS] * k + [RS]))
            return self.A(sh, lambda *ix: Cx(keep(f(*[I(i) for i in ix])), keep(g(*[I(i) for i in ix]))), d)
        if d == "b":
            f = z3.Function(nm, *([IS] * k + [BOOL]))
        if d == "i":
            f = z3.Function(nm, *([IS] * k + [IS]))
        return self.A(sh, lambda *ix: keep(f(*[I(i) for i in ix])), d)

    def like(self, a, kw, f):
        x = self.asarr(a[0])
        k = dict(kw)
        k.setdefault("dtype", a[1] if len(a) > 1 else Dt(x.dtype))
        return f([tuple(x.shape)], k)

    def f_numpy_zeros_like(self, a, kw):
        return self.like(a, kw, self.f_numpy_zeros)

    def f_numpy_ones_like(self, a, kw):
        return self.like(a, kw, self.f_numpy_ones)

    def f_numpy_empty_like(self, a, kw):
        return self.like(a, kw, self.f_numpy_empty)

    def f_numpy_full_like(self, a, kw):
        x = self.asarr(a[0])
        return self.filled(tuple(x.shape), self.cast(a[1], x.dtype), x.dtype)

    def f_numpy_arange(self, a, kw):
        kw = dict(kw)
        a = list(a)
        dt = kw.pop("dtype", None)
        if kw:
            raise Unsupported("arange keywords")
        st, sp, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a[:3]
        if any(isinstance(x, float) for x in (st, sp, step)):
            raise PyRaise_("ValueError", "arange")
        n = self.arange_len(st, sp, step)
        d = promo(sdt(st), sdt(step), sdt(sp))
        if dt is not None:
            d = self.conv_dtype(dt)
        return self.A((n,), lambda i: s_add(st, s_mul(i, step)), d if d != "b" else "i")

    def f_numpy_linspace(self, a, kw):
        n = a[2] if len(a) > 2 else kw.get("num", 50)
        if set(kw) - {"num"} or len(a) > 3:
            raise Unsupported("linspace keywords")
        st, sp = a[0], a[1]
        step = s_div(s_sub(sp, st), s_sub(n, 1)) if sym(n) or n > 1 else 0
        return self.A((n,), lambda i: s_add(st, s_mul(i, step)), "f")

    # -------------------------------------------------- numpy: shape
    def f_numpy_size(self, a, kw):
        v = a[0]
        if self.isscal(v):
            return 1
        x = self.asarr(v)
        if len(a) > 1:
            return x.shape[a[1]]
        return self.size(x)

    def f_numpy_shape(self, a, kw):
        return tuple(self.asarr(a[0]).shape)

    def f_numpy_ndim(self, a, kw):
        return 0 if self.isscal(a[0]) else self.asarr(a[0]).ndim

    def f_numpy_reshape(self, a, kw):
        return self.reshape(self.asarr(a[0]), a[1])

    def f_numpy_ravel(self, a, kw):
        x = self.asarr(a[0])
        return x if x.ndim == 1 else self.reshape(x, (self.size(x),))

    def f_numpy_flatten(self, a, kw):
        x = self.asarr(a[0])
        return self.copy(x if x.ndim == 1 else self.reshape(x, (self.size(x),)))

    def f_numpy_squeeze(self, a, kw):
        x = self.asarr(a[0])
        keepd = []
        for q, d in enumerate(x.shape):
            if not self.it.decide(s_eq(d, 1)):
                keepd.append(q)
        return self.view(x, [("r", 0, 1, x.shape[q]) if q in keepd else ("s", 0) for q in range(x.ndim)])

    def f_numpy_transpose(self, a, kw):
        return self.transpose(self.asarr(a[0]))

    def f_numpy_atleast_1d(self, a, kw):
        x = self.asarr(a[0])
        return self.reshape(x, (1,)) if x.ndim == 0 else x

    def f_numpy_expand_dims(self, a, kw):
        x = self.asarr(a[0])
        ax = a[1] if len(a) > 1 else kw["axis"]
        dims = [("r", 0, 1, d) for d in x.shape]
        dims.insert(ax if ax >= 0 else x.ndim + 1 + ax, ("n",))
        return self.view(x, dims)

    def f_numpy_flip(self, a, kw):
        x = self.asarr(a[0])
        ax = a[1] if len(a) > 1 else kw.get("axis")
        dims = []
        for q, d in enumerate(x.shape):
            if ax is None or q == (ax if ax >= 0 else ax + x.ndim):
                dims.append(("r", s_sub(d, 1), -1, d))
            else:
                dims.append(("r", 0, 1, d))
        return self.view(x, dims)

    def f_numpy_flipud(self, a, kw):
        return self.f_numpy_flip([a[0], 0], {})

    def f_numpy_fliplr(self, a, kw):
        return self.f_numpy_flip([a[0], 1], {})

    def f_numpy_append(self, a, kw):
        from interp import Arr
        if kw or len(a) > 2:
            raise Unsupported("append along an axis")
        x = self.asarr(a[0])
        v = a[1]
        if isinstance(v, Arr) and v.ndim == 0:
            v = v.at()
        if x.ndim == 2:
            if any(not sym(d) and d == 0 for d in x.shape):
                x = self.A((0,), lambda i: 0, x.dtype)
            else:
                x = self.reshape(x, (self.size(x),))
        if self.isscal(v):
            return self.append1(x, v)
        y = self.asarr(v)
        return self.concat([x, y if y.ndim == 1 else self.reshape(y, (self.size(y),))])

    def concat(self, xs):
        if any(x.ndim != 1 for x in xs):
            raise Unsupported("concatenation of matrices")
        if any(x.buf.tag for x in xs):
            raise Unsupported("concatenation of a list under construction")
        cs = [x.content() for x in xs]
        offs = [0]
        for x in xs:
            offs.append(s_add(offs[-1], x.shape[0]))
        dt = promo(*[x.dtype for x in xs])

        def fn(i):
            def rest(k):
                b = True if k == len(cs) - 1 else s_cmp("<", i, offs[k + 1])
                if b is False:
                    return rest(k + 1)
                v = cs[k](s_sub(i, offs[k]))
                return v if b is True else v_ite(b, v, rest(k + 1))
            return rest(0)
        return self.A((offs[-1],), fn, dt)

    def f_numpy_concatenate(self, a, kw):
        if len(a) > 1 and a[1] not in (0, None) or kw.get("axis", 0) != 0:
            raise Unsupported("concatenate axis")
        return self.concat([self.asarr(x) for x in self.concrete_items(a[0])])

    f_numpy_hstack = f_numpy_concatenate

    def f_numpy_column_stack(self, a, kw):
        xs = [self.asarr(x) for x in self.concrete_items(a[0])]
        if any(x.ndim != 1 for x in xs):
            raise Unsupported("column_stack")
        cs = [x.content() for x in xs]
        return self.A((xs[0].shape[0], len(xs)), lambda i, j: self.pickf(cs, j, (i,)), promo(*[x.dtype for x in xs]))

    def f_numpy_stack(self, a, kw):
        ax = kw.get("axis", a[1] if len(a) > 1 else 0)
        if ax in (1, -1):
            return self.f_numpy_column_stack(a[:1], {})
        return self.asarr(tuple(self.concrete_items(a[0])))

    f_numpy_vstack = f_numpy_stack

    def f_numpy_take(self, a, kw):
        from interp import Slice
        x = self.asarr(a[0])
        if set(kw) - {"axis"} or len(a) > 3:
            raise Unsupported("take arguments")
        ax = kw.get("axis", a[2] if len(a) > 2 else None)
        ix = a[1] if self.isscal(a[1]) else self.asarr(a[1])
        if x.ndim == 1 and ax in (None, 0, -1) or x.ndim == 2 and ax == 0:
            return self.getitem(x, ix)
        if x.ndim == 2 and ax in (1, -1):
            return self.getitem(x, (Slice(None, None, None), ix))
        raise Unsupported("take")

    def f_numpy_compress(self, a, kw):
        if kw or len(a) > 2:
            raise Unsupported("compress arguments")
        c, x = self.asarr(a[0]), self.asarr(a[1])
        if c.dtype != "b" or x.ndim != 1 or not self.it.decide(s_eq(c.shape[0], x.shape[0])):
            raise Unsupported("compress")
        return self.getitem(x, c)

    f_numpy_extract = f_numpy_compress

    def ordered(self, x):
        """is the 1-D array known to be in increasing (not necessarily strictly) order"""
        c, n, i = x.content(), x.shape[0], fresh("i")
        return x.dtype in ("f", "i") and S.entails(self.it.hyps.plus(s_cmp(">=", i, 0), s_cmp("<", s_add(i, 1), n)), s_cmp("<=", c(i), c(s_add(i, 1))))

    def f_numpy_searchsorted(self, a, kw):
        b = dict(zip(["a", "v", "side", "sorter"], a))
        b.update(kw)
        x = self.asarr(b["a"])
        side = b.get("side", "left")
        if b.get("sorter") is not None or x.ndim != 1 or not isinstance(side, str) or not self.ordered(x):
            raise Unsupported("searchsorted in an array not known to be ordered")
        n, c = x.shape[0], x.content()
        # in an ordered array the elements below (not above) v come first: the result is the only index that separates the two
        if side == "left":
            f = lambda v: FIRST(n, lambda i: s_cmp(">=", c(i), v))
        else:
            f = lambda v: s_add(LAST(n, lambda i: s_cmp("<=", c(i), v)), 1)
        return self.ew(f, "i", b["v"] if not hasattr(b["v"], "arr") else b["v"].arr)

    def f_numpy_roll(self, a, kw):
        x = self.asarr(a[0])
        if kw or len(a) > 2 or x.ndim != 1:
            raise Unsupported("roll arguments")
        n, c, d = x.shape[0], x.content(), a[1]
        if self.it.decide(s_cmp("<=", n, 0)):
            return x
        return self.A((n,), lambda i: c(v_mod(s_sub(i, d), n)), x.dtype)

    def f_numpy_tile(self, a, kw):
        x = self.asarr(a[0])
        if x.ndim != 1 or not self.isscal(a[1]):
            raise Unsupported("tile")
        n, c = x.shape[0], x.content()
        return self.A((s_mul(n, a[1]),), lambda i: c(v_mod(i, n)), x.dtype)

    def f_numpy_repeat(self, a, kw):
        x = self.asarr(a[0])
        if kw or len(a) > 2 or x.ndim > 1 or not self.isscal(a[1]) or not self.it.known(s_cmp(">", a[1], 0)):
            raise Unsupported("repeat")
        if x.ndim == 0:
            v = x.at()
            return self.A((a[1],), lambda i: v, x.dtype)
        c, k = x.content(), a[1]
        return self.A((s_mul(x.shape[0], k),), lambda i: c(v_floordiv(i, k)), x.dtype)

    def f_numpy_select(self, a, kw):
        cs, vs = self.concrete_items(a[0]), self.concrete_items(a[1])
        r = kw.get("default", a[2] if len(a) > 2 else 0)
        if len(cs) != len(vs):
            raise PyRaise_("ValueError")
        for c, v in reversed(list(zip(cs, vs))):
            r = self.f_numpy_where([c, v, r], {})
        return r

    def f_numpy_prod(self, a, kw):
        x = self.asarr(a[0])
        if kw or len(a) > 1 or x.ndim != 1 or sym(x.shape[0]) or x.shape[0] > 8:
            raise Unsupported("prod")
        r = 1
        for i in range(int(x.shape[0])):
            r = v_mul(r, x.at(i))
        return r

    def f_numpy_insert(self, a, kw):
        x = self.asarr(a[0])
        if kw or len(a) > 3 or x.ndim != 1 or not self.isscal(a[1]) or not self.isscal(a[2]):
            raise Unsupported("insert")
        n, c, v = x.shape[0], x.content(), self.cast(a[2], x.dtype)
        k = a[1]
        if self.it.decide(s_cmp("<", k, 0)):
            k = s_add(k, n)
        if self.it.decide(s_or(s_cmp("<", k, 0), s_cmp(">", k, n))):
            raise PyRaise_("IndexError")
        return self.A((s_add(n, 1),), lambda i: v_ite(s_cmp("<", i, k), c(i), v_ite(s_eq(i, k), v, c(s_sub(i, 1)))), x.dtype)

    def f_numpy_broadcast_to(self, a, kw):
        x = a[0]
        return self.ew(lambda p, q: p, self.dtype_of(x), x, self.filled(a[1], 0, self.dtype_of(x)))

    def f_numpy_delete(self, a, kw):
        from interp import Arr
        if kw or len(a) > 2:
            raise Unsupported("delete along an axis")
        x = self.asarr(a[0])
        ix = a[1]
        if x.ndim == 2:
            x = self.reshape(x, (self.size(x),)) if not any(not sym(d) and d == 0 for d in x.shape) else self.A((0,), lambda i: 0, x.dtype)
        if x.ndim != 1:
            raise Unsupported("delete")
        n = x.shape[0]
        if isinstance(ix, Arr) and ix.sel is not None:
            k, p, g = ix.sel
            if vkey(g(T_.bvar(71))) == vkey(T_.bvar(71)):
                # index list in increasing order: everything out of range is an error
                bad = ANY(k, lambda j: s_and(p(j), s_cmp(">=", j, n)))
                if self.it.decide(bad):
                    raise PyRaise_("IndexError")
                keepm = lambda i: s_not(s_and(s_cmp("<", i, k), p(i))) if not (vkey(k) == vkey(n)) else s_not(p(i))
                return self.it.sel_arr(n, keepm, x.content(), x.dtype)
            raise Unsupported("delete at computed indices")
        if isinstance(ix, Arr) and ix.dtype == "b":
            m = ix.content()
            return self.it.sel_arr(n, lambda i: s_not(m(i)), x.content(), x.dtype)
        if isinstance(ix, Arr):
            if not sym(ix.shape[0]) and ix.shape[0] == 0:
                return self.copy(x)
            raise Unsupported("delete")
        i0 = self.idx(ix, n)
        c = x.content()
        return self.A((s_sub(n, 1),), lambda i: v_ite(s_cmp("<", i, i0), c(i), c(s_add(i, 1))), x.dtype)

    # -------------------------------------------------- numpy: search and reductions
    def f_numpy_where(self, a, kw):
        if len(a) == 3:
            from interp import PList, SymList
            c, x, y = [self.asarr(v) if isinstance(v, (PList, SymList, tuple)) else v for v in a]
            tr = self.it.truth
            return self.ew(lambda p, q, r: v_ite(tr(p), q, r), promo(self.dtype_of(x), self.dtype_of(y)), c, x, y)
        return self.f_numpy_nonzero(a, kw)

    def f_numpy_nonzero(self, a, kw):
        x = self.asarr(a[0])
        if x.ndim > 1 and any(not sym(d) and d == 0 for d in x.shape):
            return tuple(self.A((0,), lambda i: 0, "i") for _ in x.shape)
        if x.ndim != 1:
            raise Unsupported("nonzero of a matrix")
        tr = self.it.truth
        if x.sel is not None:
            n, p, g = x.sel
            # positions inside the selection
            q = lambda i: s_and(p(i), tr(g(i)))
            return (self.it.sel_arr(n, q, lambda i: CNT(i, p), "i"),)
        c = x.content()
        return (self.it.sel_arr(x.shape[0], lambda i: tr(c(i)), lambda i: i, "i"),)

    def f_numpy_flatnonzero(self, a, kw):
        return self.f_numpy_nonzero(a, kw)[0]

    def f_numpy_count_nonzero(self, a, kw):
        x = self.asarr(a[0])
        tr = self.it.truth
        if x.ndim != 1:
            raise Unsupported("count_nonzero")
        if x.sel is not None:
            n, p, g = x.sel
            return CNT(n, lambda i: s_and(p(i), tr(g(i))))
        c = x.content()
        return CNT(x.shape[0], lambda i: tr(c(i)))

    def f_numpy_argmax(self, a, kw):
        return self.arg(a, kw, True)

    def f_numpy_argmin(self, a, kw):
        return self.arg(a, kw, False)

    def arg(self, a, kw, mx):
        x = self.asarr(a[0])
        if x.ndim != 1 or kw or len(a) > 1:
            raise Unsupported("argmax along an axis")
        n = x.shape[0]
        if self.it.decide(s_cmp("<=", n, 0)):
            raise PyRaise_("ValueError", "argmax of an empty sequence")
        if x.sel is not None:
            k, p, g = x.sel
            return CNT(ARGMAXP(k, g if mx else (lambda i: v_neg(g(i))), p), p)
        c = x.content()
        if x.dtype == "b":
            tr = self.it.truth
            F = FIRST(n, (lambda i: tr(c(i))) if mx else (lambda i: s_not(tr(c(i)))))
            return s_ite(s_cmp("<", F, n), F, 0)
        return ARGMAX(n, c if mx else (lambda i: v_neg(c(i))))

    def np_sort(self, a, kw):
        x = self.asarr(a[0])
        if x.ndim != 1:
            if any(not sym(d) and d == 0 for d in x.shape):
                return x
            raise Unsupported("sort of a matrix")
        c = x.content()
        n = x.shape[0]
        # an array known to be ordered already (the rule is proved in goals.sorted_unique)
        i = fresh("i")
        if x.dtype in ("f", "i"):
            h = self.it.hyps.plus(s_cmp(">=", i, 0), s_cmp("<", s_add(i, 1), n))
            if S.entails(h, s_cmp(">=", c(i), c(s_add(i, 1)))):
                return self.A((n,), lambda r: c(s_sub(s_sub(n, 1), r)), x.dtype)
            if S.entails(h, s_cmp("<=", c(i), c(s_add(i, 1)))):
                return self.A((n,), c, x.dtype)
        return self.A((n,), lambda r: c(PERM(r, n, c)), x.dtype)

    f_numpy_sort = np_sort

    def f_numpy_argsort(self, a, kw):
        x = self.asarr(a[0])
        kind = kw.get("kind", a[2] if len(a) > 2 else None)
        if kw.get("stable"):
            kind = "stable"
        if x.ndim != 1:
            raise Unsupported("argsort of a matrix")
        if kind not in ("stable", "mergesort"):
            raise Unsupported("argsort that is not stable")
        c = x.content()
        n = x.shape[0]
        # a stable sort leaves an ordered array in place (proved in goals.sorted_unique)
        i = fresh("i")
        if x.dtype in ("f", "i") and S.entails(self.it.hyps.plus(s_cmp(">=", i, 0), s_cmp("<", s_add(i, 1), n)), s_cmp("<=", c(i), c(s_add(i, 1)))):
            return self.A((n,), lambda r: r, "i")
        return self.A((n,), lambda r: PERM(r, n, c), "i")

    def f_numpy_lexsort(self, a, kw):
        raise Unsupported("lexsort")

    def f_numpy_diff(self, a, kw):
        if kw or len(a) > 1:
            raise Unsupported("diff arguments")
        x = self.asarr(a[0])
        if x.ndim == 0:
            raise PyRaise_("ValueError")
        c = x.content()
        n = x.shape[-1]
        m = s_sub(n, 1)
        if not self.it.known(s_cmp(">=", m, 0)):
            m = s_ite(s_cmp(">=", m, 0), m, 0)
        if x.ndim == 2:
            return self.A((x.shape[0], m), lambda i, j: v_sub(c(i, s_add(j, 1)), c(i, j)), x.dtype)
        return self.A((m,), lambda i: v_sub(c(s_add(i, 1)), c(i)), x.dtype)

    def f_numpy_ediff1d(self, a, kw):
        return self.f_numpy_diff(a, kw)

    def f_numpy_all(self, a, kw):
        if kw or len(a) > 1:
            raise Unsupported("all along an axis")
        return self.allany(a[0] if not hasattr(a[0], "arr") else a[0].arr, True)

    def f_numpy_any(self, a, kw):
        if kw or len(a) > 1:
            raise Unsupported("any along an axis")
        return self.allany(a[0] if not hasattr(a[0], "arr") else a[0].arr, False)

    def axis(self, a, kw, pos=1):
        ax = a[pos] if len(a) > pos else kw.get("axis")
        for k in kw:
            if k not in ("axis", "dtype", "ddof", "keepdims"):
                raise Unsupported("keyword %s" % k)
        if kw.get("keepdims") or kw.get("ddof"):
            raise Unsupported("keepdims/ddof")
        if "dtype" in kw and kw["dtype"] is not None:
            self.conv_dtype(kw["dtype"])
        return ax

    def f_numpy_sum(self, a, kw):
        return self.reduce(a, kw, lambda n, f: SUM(n, lambda i: num(f(i)) if not isinstance(f(i), Cx) else f(i)))

    f_numpy_nansum = f_numpy_sum

    def reduce(self, a, kw, op):
        x = self.asarr(a[0])
        ax = self.axis(a, kw)
        if x.ndim == 0:
            return x.at()
        if x.ndim == 1:
            if x.sel is not None and op.__name__ == "<lambda>":
                n, p, g = x.sel
                return op(n, lambda i: v_ite(p(i), num(g(i)) if not isinstance(g(i), Cx) else g(i), 0))
            return op(x.shape[0], x.content())
        c = x.content()
        if ax is None:
            return op(x.shape[0], lambda i: op(x.shape[1], lambda j: c(i, j)))
        dt = x.dtype if x.dtype != "b" else "i"
        if ax in (0, -2):
            return self.A((x.shape[1],), lambda j: op(x.shape[0], lambda i: c(i, j)), dt)
        return self.A((x.shape[0],), lambda i: op(x.shape[1], lambda j: c(i, j)), dt)

    def f_numpy_mean(self, a, kw):
        x = self.asarr(a[0])
        ax = self.axis(a, kw)
        if x.ndim == 0:
            return x.at()
        n = self.size(x) if ax is None else x.shape[ax]
        if self.it.decide(s_cmp("<=", n, 0)):
            return NAN
        s = self.f_numpy_sum(a, kw)
        r = self.binop("Div", s, n)
        return r

    f_numpy_average = f_numpy_mean
    f_numpy_nanmean = f_numpy_mean

    def f_numpy_var(self, a, kw):
        x = self.asarr(a[0])
        if self.axis(a, kw) is not None:
            raise Unsupported("var along an axis")
        m = self.f_numpy_mean([x], {})
        if isnan_(m):
            return NAN
        d = self.binop("Sub", x, m)
        if x.dtype == "c":
            raise Unsupported("variance of complex values")
        return self.f_numpy_mean([self.binop("Mult", d, d)], {})

    def f_numpy_std(self, a, kw):
        v = self.f_numpy_var(a, kw)
        return NAN if isnan_(v) else v_sqrt(v)

    def npminmax(self, a, kw, mx):
        x = self.asarr(a[0])
        ax = self.axis(a, kw)
        if x.ndim == 0:
            return x.at()
        if x.ndim == 2 and ax is not None:
            c = x.content()
            if ax in (0, -2):
                return self.A((x.shape[1],), lambda j: self.ext_value(x.shape[0], lambda i: c(i, j), mx), x.dtype)
            return self.A((x.shape[0],), lambda i: self.ext_value(x.shape[1], lambda j: c(i, j), mx), x.dtype)
        if self.it.decide(s_cmp("<=", self.size(x), 0)):
            raise PyRaise_("ValueError", "zero-size array")
        return self.extreme(x, mx)

    def f_numpy_max(self, a, kw):
        return self.npminmax(a, kw, True)

    def f_numpy_min(self, a, kw):
        return self.npminmax(a, kw, False)

    f_numpy_amax, f_numpy_amin = f_numpy_max, f_numpy_min
    f_numpy_nanmax, f_numpy_nanmin = f_numpy_max, f_numpy_min

    def f_numpy_ptp(self, a, kw):
        return s_sub(self.f_numpy_max(a, kw), self.f_numpy_min(a, kw))

    def f_numpy_cumsum(self, a, kw):
        x = self.asarr(a[0])
        if x.ndim != 1 or kw or len(a) > 1:
            raise Unsupported("cumsum")
        c = x.content()
        return self.A((x.shape[0],), lambda j: SUM(s_add(j, 1), c), x.dtype)

    def f_numpy_polyfit(self, a, kw):
        if kw or len(a) != 3 or not isinstance(a[2], int):
            raise Unsupported("polyfit arguments")
        x, y, d = self.asarr(a[0]), self.asarr(a[1]), a[2]
        if x.ndim != 1 or y.ndim != 1 or not self.it.known(s_eq(x.shape[0], d + 1)) or not self.it.known(s_eq(y.shape[0], d + 1)) or d not in (1, 2):
            raise Unsupported("polyfit of other than degree + 1 points")
        xs, ys = [x.at(k) for k in range(d + 1)], [y.at(k) for k in range(d + 1)]
        if any(isinstance(v, Cx) for v in xs + ys):
            raise Unsupported("polyfit of complex values")
        for k in range(d + 1):
            for l in range(k):
                if not self.it.known(s_not(s_eq(xs[k], xs[l]))):
                    raise Unsupported("polyfit with points that may coincide")
        self.note("numpy.polyfit: with degree + 1 distinct points the interpolating polynomial")
        cn = lambda v: T_.conc(T_.canon(R(v))) if sym(v) else v
        d01 = s_div(s_sub(ys[1], ys[0]), cn(s_sub(xs[1], xs[0])))
        if d == 1:
            co = [d01, s_sub(ys[0], s_mul(d01, xs[0]))]
        else:
            d12 = s_div(s_sub(ys[2], ys[1]), cn(s_sub(xs[2], xs[1])))
            q = s_div(s_sub(d12, d01), cn(s_sub(xs[2], xs[0])))
            b = s_sub(d01, s_mul(q, cn(s_add(xs[0], xs[1]))))
            co = [q, b, s_sub(ys[0], s_mul(xs[0], s_add(b, s_mul(q, xs[0]))))]
        return self.A((d + 1,), lambda k: self.pick(co, k), "f")

    def pick(self, vals, k):
        if not sym(k):
            return vals[k]
        r = vals[-1]
        for i in range(len(vals) - 2, -1, -1):
            r = s_ite(s_eq(k, i), vals[i], r)
        return r

    def f_numpy_dot(self, a, kw):
        return self.matmul(self.asarr(a[0]), self.asarr(a[1]))

    f_numpy_matmul = f_numpy_dot

    def f_numpy_outer(self, a, kw):
        x, y = self.asarr(a[0]), self.asarr(a[1])
        cx_, cy = x.content(), y.content()
        return self.A((x.shape[0], y.shape[0]), lambda i, j: v_mul(cx_(i), cy(j)), promo(x.dtype, y.dtype))

    def f_numpy_clip(self, a, kw):
        lo, hi = a[1], a[2]
        r = a[0]
        if lo is not None:
            r = self.call("numpy.maximum", [r, lo], {})
        if hi is not None:
            r = self.call("numpy.minimum", [r, hi], {})
        return r

    def f_numpy_isclose(self, a, kw):
        raise Unsupported("isclose")

    f_numpy_allclose = f_numpy_isclose

    def f_numpy_array_equal(self, a, kw):
        x, y = self.asarr(a[0]), self.asarr(a[1])
        if x.ndim != 1 or y.ndim != 1:
            raise Unsupported("array_equal")
        if not self.it.decide(s_eq(x.shape[0], y.shape[0])):
            return False
        return self.allany(self.compare("==", x, y), True)

    def f_numpy_isscalar(self, a, kw):
        return self.isscal(a[0]) or isinstance(a[0], str)

    def f_numpy_iscomplexobj(self, a, kw):
        return self.dtype_of(a[0]) == "c"

    def f_numpy_result_type(self, a, kw):
        from interp import Arr
        ds = []
        for x in a:
            if isinstance(x, Arr) or self.isscal(x):
                ds.append(self.dtype_of(x))
            else:
                ds.append(self.conv_dtype(x))
        return Dt(promo(*ds))

    def f_numpy_dtype(self, a, kw):
        return Dt(self.conv_dtype(a[0]))

    def f_numpy_errstate(self, a, kw):
        from interp import Opaque
        return Opaque("errstate")

    def f_numpy_seterr(self, a, kw):
        return None

    def f_numpy_finfo(self, a, kw):
        from interp import Ext
        return Ext("numpy.finfo()")

    def f_numpy_spacing(self, a, kw):
        v = a[0]
        if not sym(v) and v == 1:
            return Fraction(1, 2 ** 52)
        raise Unsupported("spacing")

    def f_numpy_interp(self, a, kw):
        names = ["x", "xp", "fp", "left", "right", "period"]
        b = dict(zip(names, a))
        b.update(kw)
        if b.get("period") is not None:
            raise Unsupported("interp period")
        xp, fp = self.asarr(b["xp"]), self.asarr(b["fp"])
        if xp.ndim != 1 or fp.ndim != 1 or not self.it.decide(s_eq(xp.shape[0], fp.shape[0])):
            raise PyRaise_("ValueError")
        self.note("numpy.interp: linear interpolation, left/right outside (opaque operator of point, abscissae, ordinates, left, right)")
        n, cx_, cf = xp.shape[0], xp.content(), fp.content()
        l, r = b.get("left"), b.get("right")
        return self.ew(lambda x: INTERP(x, n, cx_, cf, l, r), "f", b["x"] if not hasattr(b["x"], "arr") else b["x"].arr)

    def f_numpy_polyfit(self, a, kw):
        x, y = self.asarr(a[0]), self.asarr(a[1])
        if kw or len(a) > 3 or a[2] != 2 or x.ndim != 1 or y.ndim != 1 or sym(x.shape[0]) or x.shape[0] != 3 or sym(y.shape[0]) or y.shape[0] != 3:
            raise Unsupported("polyfit other than a parabola through three points")
        self.note("numpy.polyfit of degree 2 on three points: the interpolating parabola")
        x0, x1, x2 = [x.at(i) for i in range(3)]
        y0, y1, y2 = [y.at(i) for i in range(3)]
        d01 = s_div(s_sub(y1, y0), s_sub(x1, x0))
        d12 = s_div(s_sub(y2, y1), s_sub(x2, x1))
        A2 = s_div(s_sub(d12, d01), s_sub(x2, x0))
        B1 = s_sub(d01, s_mul(A2, s_add(x0, x1)))
        C0 = s_sub(y0, s_mul(x0, s_add(B1, s_mul(A2, x0))))
        return self.asarr((A2, B1, C0))

    # -------------------------------------------------- random
    def get_rng(self):
        if self.rng is None:
            self.rng = Rng(z3.Int("rng0"))
        if self.rng not in self.it.heap:
            self.it.reg(self.rng)
        return self.rng

    def f_numpy_random_seed(self, a, kw):
        self.note("numpy.random.seed/rand: the stream is a function of the seed; values lie in [0,1)")
        v = a[0] if a else None
        if v is None:
            self.get_rng().s = fresh("rng")
            return None
        if self.it.decide(s_cmp("<", v, 0)):
            raise PyRaise_("ValueError")
        self.get_rng().s = keep(SEED(I(s_trunc(v))))
        return None

    def f_numpy_random_rand(self, a, kw):
        self.note("numpy.random.seed/rand: the stream is a function of the seed; values lie in [0,1)")
        sh = self.shape_arg(tuple(a))
        r = self.get_rng()
        s = r.s
        size = 1
        for d in sh:
            size = s_mul(size, d)
        r.s = keep(RNGNEXT(s, I(size)))

        def fn(*ix):
            if len(ix) == 0:
                return keep(RAND(s, z3.IntVal(0)))
            if len(ix) == 1:
                return keep(RAND(s, I(ix[0])))
            if len(ix) == 2:
                if not sym(sh[0]) and sh[0] == 1:
                    return keep(RAND(s, I(ix[1])))
                return keep(RAND(s, I(s_add(s_mul(ix[0], sh[1]), ix[1]))))
            raise Unsupported("random array")
        if not sh:
            return fn()
        return self.A(sh, fn, "f")

    def f_numpy_random_random(self, a, kw):
        sz = a[0] if a else kw.get("size", ())
        return self.f_numpy_random_rand(list(sz) if isinstance(sz, tuple) else [sz], {})

    f_numpy_random_random_sample = f_numpy_random_random

    def f_numpy_random_uniform(self, a, kw):
        b = dict(zip(["low", "high", "size"], a))
        b.update(kw)
        lo, hi = b.get("low", 0), b.get("high", 1)
        sz = b.get("size", ())
        u = self.f_numpy_random_rand(list(sz) if isinstance(sz, tuple) else [sz] if sz is not None else [], {})
        return self.binop("Add", lo, self.binop("Mult", s_sub(hi, lo), u))

    # -------------------------------------------------- fft
    def f_numpy_fft_fft(self, a, kw):
        return self.fft(a, kw, False)

    def f_numpy_fft_ifft(self, a, kw):
        return self.fft(a, kw, True)

    f_scipy_fft_fft, f_scipy_fft_ifft = f_numpy_fft_fft, f_numpy_fft_ifft

    def fft(self, a, kw, inverse):
        x = self.asarr(a[0])
        n = a[1] if len(a) > 1 else kw.get("n")
        if set(kw) - {"n", "axis"} or len(a) > 2 or kw.get("axis", -1) not in (0, -1):
            raise Unsupported("fft keywords")
        if x.ndim != 1:
            raise Unsupported("fft of a matrix")
        c, m = x.content(), x.shape[0]
        if n is None:
            n = m
        elif not self.it.decide(s_eq(n, m)):
            c0 = c
            c = T_.memo_clos(lambda i: v_ite(s_cmp("<", i, m), c0(i), 0))  # cut off or filled up with zeros
        n = simp(n) if sym(n) else n
        if self.it.decide(s_cmp("<", n, 1)):
            raise PyRaise_("ValueError", "fft of no samples")
        self.note("numpy.fft: the discrete Fourier transform over the reals (Hermitian for real input, inverse, linear, Parseval)")
        if x.dtype == "c" or inverse:
            return self.A((n,), lambda k: DFT(k, n, lambda i: v_re(c(i)), lambda i: v_im(c(i)), inverse), "c")
        return self.A((n,), lambda k: DFT(k, n, c), "c")

    def f_numpy_fft_rfft(self, a, kw):
        x = self.asarr(a[0])
        full = self.fft(a, kw, False)
        if x.dtype == "c":
            raise PyRaise_("TypeError")
        c = full.content()
        return self.A((s_add(v_floordiv(full.shape[0], 2), 1),), c, "c")

    def f_numpy_fft_irfft(self, a, kw):
        x = self.asarr(a[0])
        n = a[1] if len(a) > 1 else kw.get("n")
        m = x.shape[0]
        if n is None:
            n = s_mul(2, s_sub(m, 1))
        if not self.it.decide(s_eq(s_add(v_floordiv(n, 2), 1), m)):
            raise Unsupported("irfft with padding")
        self.note("numpy.fft.irfft: real part of the inverse transform of the Hermitian extension")
        c = x.content()

        def re(k):
            return s_ite(s_cmp("<", k, m), v_re(c(k)), v_re(c(s_sub(n, k))))

        def im(k):
            return s_ite(s_or(s_eq(k, 0), s_eq(s_mul(2, k), n)), 0, s_ite(s_cmp("<", k, m), v_im(c(k)), s_neg(v_im(c(s_sub(n, k))))))
        return self.A((n,), lambda j: DFT(j, n, re, im, True).re, "f")

    def f_numpy_fft_fftfreq(self, a, kw):
        n = a[0]
        d = a[1] if len(a) > 1 else kw.get("d", 1)
        h = v_floordiv(s_add(n, 1), 2)
        return self.A((n,), lambda k: s_div(s_ite(s_cmp("<", k, h), k, s_sub(k, n)), s_mul(n, d)), "f")

    def f_numpy_fft_rfftfreq(self, a, kw):
        n = a[0]
        d = a[1] if len(a) > 1 else kw.get("d", 1)
        return self.A((s_add(v_floordiv(n, 2), 1),), lambda k: s_div(k, s_mul(n, d)), "f")

    # -------------------------------------------------- scipy
    def f_scipy_integrate_simpson(self, a, kw):
        b = dict(zip(["y"], a))
        b.update(kw)
        if set(b) - {"y", "x", "dx"}:
            raise Unsupported("simpson arguments")
        y = self.asarr(b["y"])
        if y.ndim != 1:
            raise Unsupported("simpson of a matrix")
        n = y.shape[0]
        self.note("scipy.integrate.simpson: on equally spaced samples a linear functional of the samples with weights that depend on their number only (positive for two or more), times the spacing")
        if b.get("x") is not None:
            x = self.asarr(b["x"])
            if x.ndim != 1 or not self.it.decide(s_eq(x.shape[0], n)):
                raise PyRaise_("ValueError", "simpson")
            xc = x.content()
            i = fresh("q")
            h = s_sub(xc(1), xc(0))
            hy = self.it.hyps.plus(i >= 0, s_cmp("<", s_add(i, 1), n))
            if S.prove(hy, s_eq(s_sub(xc(s_add(i, 1)), xc(i)), h)) is not True:
                raise Unsupported("Simpson's rule on an axis that is not provably uniform")
        else:
            h = b.get("dx", 1)
        return SIMP(n, y.content(), h)

    f_scipy_integrate_simps = f_scipy_integrate_simpson

    def f_scipy_special_gamma(self, a, kw):
        self.note("scipy.special.gamma, gammainc: uninterpreted (positive)")
        return keep(GAMMA(T_.canon(R(a[0]))))

    def f_scipy_special_gammainc(self, a, kw):
        self.note("scipy.special.gamma, gammainc: uninterpreted (positive)")
        return keep(GAMMAINC(T_.canon(R(a[0])), T_.canon(R(a[1]))))

    def f_scipy_special_gammaincc(self, a, kw):
        return s_sub(1, self.f_scipy_special_gammainc(a, kw))

    def f_scipy_stats_exponweib_ppf(self, a, kw):
        b = dict(zip(["q", "a", "c", "loc", "scale"], a))
        b.update(kw)
        if sym(b["a"]) or sym(b["c"]) or b["a"] != 1 or b["c"] != 2 or b.get("loc", 0) != 0:
            raise Unsupported("exponweib other than Rayleigh")
        self.note("scipy.stats.exponweib.ppf(q, 1, 2, scale=s) = s sqrt(-ln(1-q))")
        return s_mul(b.get("scale", 1), v_sqrt(s_neg(T_.u_log(s_sub(1, b["q"])))))

    def f_scipy_stats_rayleigh_ppf(self, a, kw):
        b = dict(zip(["q", "loc", "scale"], a))
        b.update(kw)
        if b.get("loc", 0) != 0:
            raise Unsupported("rayleigh with location")
        self.note("scipy.stats.rayleigh.ppf(q, scale=s) = s sqrt(-2 ln(1-q))")
        s, q = b.get("scale", 1), b["q"]
        if set(b) - {"q", "loc", "scale"}:
            raise Unsupported("arguments of rayleigh.ppf")
        q = q if self.isscal(q) else self.asarr(q)
        return self.ew(lambda u, v: s_mul(v, v_sqrt(s_mul(-2, T_.u_log(s_sub(1, u))))), "f", q, s)

    def f_scipy_signal_welch(self, a, kw):
        names = ["x", "fs", "window", "nperseg", "noverlap", "nfft", "detrend", "return_onesided", "scaling", "axis", "average"]
        b = {"fs": 1, "window": "hann", "nperseg": None, "noverlap": None, "nfft": None, "detrend": "constant", "return_onesided": True, "scaling": "density", "axis": -1, "average": "mean"}
        b.update(dict(zip(names, a)))
        b.update(kw)
        self.note("scipy.signal.welch: opaque estimator; returns a uniform increasing frequency axis and densities of the same length")
        k = len(self.calls)
        m = z3.Int("welch_n!%d" % k)
        df = z3.Real("welch_df!%d" % k)
        Sf = T_.mk_array("welch_S!%d" % k)
        self.it.assume(m >= 2)
        self.it.assume(df > 0)
        f = self.A((m,), lambda i: s_mul(i, df), "f")
        s = self.A((m,), Sf, "f")
        self.calls.append(("welch", b, f, s))
        return (f, s)

    def f_scipy_signal_hilbert(self, a, kw):
        x = self.asarr(a[0])
        if x.ndim != 1 or x.dtype == "c" or kw.get("axis", -1) not in (0, -1):
            raise Unsupported("hilbert of such an array")
        m = n = x.shape[0]
        c = x.content()
        if len(a) > 1 or kw.get("N") is not None:
            n = a[1] if len(a) > 1 else kw.get("N")
            if not self.it.decide(s_cmp(">", n, 0)):
                raise PyRaise_("ValueError")
            if not self.it.decide(s_eq(n, m)):
                c0 = c
                c = T_.memo_clos(lambda i: v_ite(s_cmp("<", i, m), c0(i), 0))  # cut off or filled up with zeros
        self.note("scipy.signal.hilbert: imaginary part a circular convolution with an odd kernel of zero sum")
        return self.A((n,), lambda j: Cx(c(j), S.hilbert(n, c, j)), "c")

    # -------------------------------------------------- math
    def f_math_floor(self, a, kw):
        if isinf(a[0]):
            raise PyRaise_("OverflowError")
        return s_floor(self.sc(a[0]))

    def f_math_ceil(self, a, kw):
        return s_ceil(self.sc(a[0]))

    def sc(self, v):
        from interp import Arr
        if isinstance(v, Arr):
            if not self.it.decide(s_eq(self.size(v), 1)):
                raise PyRaise_("TypeError")
            return v.at(*[0] * v.ndim)
        return v

    def f_math_isclose(self, a, kw):
        raise Unsupported("math.isclose")

    def f_math_pow(self, a, kw):
        return v_pow(a[0], a[1])

    def f_math_log(self, a, kw):
        if len(a) > 1:
            return s_div(T_.u_log(a[0]), T_.u_log(a[1]))
        return T_.u_log(a[0])


def _PList(items):
    from interp import PList
    return PList(items)


def PyRaise_(name, msg=""):
    from interp import PyRaise
    return PyRaise(name, msg)


def _isnan(v):
    return isnan_(v)


def _isinf(v):
    return isinstance(v, float) and v == v


def _isfinite(v):
    return not isinstance(v, float)


def _log(v):
    return T_.u_log(num(v))


UNARY = {
    "abs": (v_abs, None), "absolute": (v_abs, None), "fabs": (v_abs, "f"), "real": (v_re, None), "imag": (v_im, None), "conj": (v_conj, None), "conjugate": (v_conj, None),
    "sqrt": (v_sqrt, "f"), "exp": (v_exp, "f"), "log": (_log, "f"), "tanh": (lambda v: T_.u_tanh(num(v)), "f"), "sign": (v_sign, None),
    "isnan": (_isnan, "b"), "isinf": (_isinf, "b"), "isfinite": (_isfinite, "b"), "square": (lambda v: v_mul(v, v), None), "negative": (v_neg, None),
    "floor": (lambda v: s_floor(v), None), "ceil": (lambda v: s_ceil(v), None), "round": (lambda v: s_round(v), None), "rint": (lambda v: s_round(v), None), "around": (lambda v: s_round(v), None),
    "trunc": (lambda v: s_trunc(v), None), "fix": (lambda v: s_trunc(v), None),
    "sin": (lambda v: T_.trig(v)[1], "f"), "cos": (lambda v: T_.trig(v)[0], "f"), "positive": (lambda v: v, None), "reciprocal": (lambda v: v_div(1, v), "f"),
    "log10": (lambda v: s_div(_log(v), _log(10)), "f"),
}
BY_DEF = {   # functions with a contract above and a definition in npdefs.py: which calls take the definition
    "numpy_isclose": lambda a, k: True, "numpy_allclose": lambda a, k: True,
    "numpy_average": lambda a, k: "weights" in k,
    "numpy_var": lambda a, k: "ddof" in k, "numpy_std": lambda a, k: "ddof" in k,
    "numpy_diff": lambda a, k: len(a) > 1 or "n" in k or "prepend" in k or "append" in k,
    "numpy_ediff1d": lambda a, k: len(a) > 1 or len(k) > 0,
    "numpy_linspace": lambda a, k: "endpoint" in k or "retstep" in k or len(a) > 3,
    "numpy_round": lambda a, k: len(a) > 1, "numpy_around": lambda a, k: len(a) > 1, "builtins_round": lambda a, k: len(a) > 1,
    "builtins_max": lambda a, k: "key" in k and len(a) == 1, "builtins_min": lambda a, k: "key" in k and len(a) == 1,
}
METHODS = {"mean": "mean", "sum": "sum", "all": "all", "any": "any", "argmin": "argmin", "argmax": "argmax", "min": "min", "max": "max", "flatten": "flatten",
           "ravel": "ravel", "copy": "copy", "conj": "conj", "conjugate": "conj", "round": "round", "squeeze": "squeeze", "var": "var", "std": "std", "transpose": "transpose",
           "reshape": "reshape", "astype": "astype", "tolist": "tolist", "item": "item", "sort": "sort", "argsort": "argsort", "fill": "fill", "nonzero": "nonzero", "cumsum": "cumsum", "clip": "clip", "dot": "dot", "ptp": "ptp", "take": "take", "repeat": "repeat", "searchsorted": "searchsorted", "prod": "prod"}
