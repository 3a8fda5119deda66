"""Terms of the verifier: z3 scalars, a ring normaliser and 'functional' terms.

A functional term is a z3 constant standing for an operator applied to index functions
(sum, count, first index, argmax, Fourier coefficient, Simpson integral, contract of a callee, ...).
The registry keeps the index functions as closures; two functional terms are the same constant when
their bodies are syntactically equal, and the prover may equate others by proving their bodies equal
at every index (extensionality).
"""
import math
from fractions import Fraction

import z3

KEEP = []  # keeps every AST alive, so that ids stay unique


def keep(t):
    KEEP.append(t)
    return t


class Unsupported(Exception):
    """the code (or a term) is outside the verifier's subset"""


# ----------------------------------------------------------------------------- scalars
def sym(x):
    return isinstance(x, z3.ExprRef)


def isnum(x):
    return (isinstance(x, (int, Fraction)) and not isinstance(x, bool)) or isinstance(x, float)


def isint(x):
    if sym(x):
        return x.sort() == z3.IntSort()
    return isinstance(x, int) and not isinstance(x, bool)


def isbool(x):
    return isinstance(x, bool) or (sym(x) and x.sort() == z3.BoolSort())


def isinf(x):
    return isinstance(x, float)


def B(x):
    """as a z3 Bool"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if sym(x):
        if x.sort() == z3.BoolSort():
            return x
        return x != 0
    if isinstance(x, (int, Fraction)):
        return z3.BoolVal(x != 0)
    raise Unsupported("truth value of %r" % type(x).__name__)


def num(x):
    """bool -> int"""
    if isinstance(x, bool):
        return int(x)
    if sym(x) and x.sort() == z3.BoolSort():
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def R(x):
    """as a z3 Real"""
    x = num(x)
    if sym(x):
        if x.sort() == z3.IntSort():
            v = z3.simplify(x)
            if z3.is_int_value(v):
                return z3.RealVal(v.as_long())
            return z3.ToReal(x)
        return x
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    raise Unsupported("real term of %r" % (x,))


def I(x):
    x = num(x)
    if sym(x):
        if x.sort() == z3.IntSort():
            return x
        v = z3.simplify(x)
        if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
            return v.arg(0)
        if z3.is_rational_value(v) and v.denominator_as_long() == 1:
            return z3.IntVal(v.numerator_as_long())
        raise Unsupported("integer term of a real")
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction) and x.denominator == 1:
        return z3.IntVal(x.numerator)
    raise Unsupported("integer term of %r" % (x,))


def conc(x):
    """a z3 value as a Python number where it is one"""
    if sym(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            f = Fraction(x.numerator_as_long(), x.denominator_as_long())
            return f
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def T(x):
    """any scalar as z3 term of its own sort"""
    if sym(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return R(x)


_simp = {}


def simp(t):
    if not sym(t):
        return t
    k = t.get_id()
    r = _simp.get(k)
    if r is None:
        r = z3.simplify(t)
        keep(t)
        keep(r)
        _simp[k] = r
    return conc(r)


def s_add(a, b):
    a, b = num(a), num(b)
    if not sym(a) and not sym(b):
        return a + b if not (isinf(a) or isinf(b)) else float(a) + float(b)
    if isinf(a) or isinf(b):
        return a if isinf(a) else b
    if not sym(a) and a == 0:
        return b
    if not sym(b) and b == 0:
        return a
    if isint(a) and isint(b):
        return simp(I(a) + I(b))
    return keep(R(a) + R(b))


def s_neg(a):
    a = num(a)
    if not sym(a):
        return -a
    if isint(a):
        return simp(-a)
    return keep(-a)


def s_sub(a, b):
    a, b = num(a), num(b)
    if not sym(b):
        return s_add(a, -b)
    if not sym(a) and not isinf(a) and a == 0:
        return s_neg(b)
    if isinf(a):
        return a
    if isint(a) and isint(b):
        return simp(I(a) - I(b))
    return keep(R(a) - R(b))


def s_mul(a, b):
    a, b = num(a), num(b)
    if not sym(a) and not sym(b):
        return a * b if not (isinf(a) or isinf(b)) else float(a) * float(b)
    if isinf(a) or isinf(b):
        raise Unsupported("product with infinity")
    if not sym(a) and a == 0 or not sym(b) and b == 0:
        return 0
    if not sym(a) and a == 1:
        return b
    if not sym(b) and b == 1:
        return a
    if isint(a) and isint(b):
        return simp(I(a) * I(b))
    return keep(R(a) * R(b))


def s_eq(a, b):
    if isbool(a) and isbool(b):
        if not sym(a) and not sym(b):
            return a == b
        return simp(B(a) == B(b))
    a, b = num(a), num(b)
    if not sym(a) and not sym(b):
        return a == b
    if isinf(a) or isinf(b):
        return False
    if isint(a) and isint(b):
        return simp(I(a) == I(b))
    return simp(R(a) == R(b))


def s_cmp(op, a, b):
    a, b = num(a), num(b)
    if op == "==":
        return s_eq(a, b)
    if op == "!=":
        return s_not(s_eq(a, b))
    if not sym(a) and not sym(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    if isinf(a) or isinf(b):
        if (isinf(a) and a != a) or (isinf(b) and b != b):
            return False
        big = (isinf(a) and a > 0) or (isinf(b) and b < 0)  # a > b
        return {"<": not big, "<=": not big, ">": big, ">=": big}[op]
    if isint(a) and isint(b):
        a, b = I(a), I(b)
    else:
        a, b = R(a), R(b)
    # one form for each comparison, so that equal conditions have equal names
    return simp({"<": lambda: z3.Not(b <= a), "<=": lambda: a <= b, ">": lambda: z3.Not(a <= b), ">=": lambda: b <= a}[op]())


def s_not(a):
    if not sym(a):
        return not a
    return simp(z3.Not(B(a)))


def s_and(*xs):
    out = []
    for x in xs:
        if not sym(x):
            if not x:
                return False
            continue
        out.append(B(x))
    if not out:
        return True
    return out[0] if len(out) == 1 else keep(z3.And(*out))


def s_or(*xs):
    out = []
    for x in xs:
        if not sym(x):
            if x:
                return True
            continue
        out.append(B(x))
    if not out:
        return False
    return out[0] if len(out) == 1 else keep(z3.Or(*out))


def s_ite(c, a, b):
    """scalar if-then-else, also for complex pairs"""
    c = simp(c) if sym(c) else c
    if not sym(c):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(s_ite(c, a.re, b.re), s_ite(c, a.im, b.im))
    if isbool(a) and isbool(b):
        return simp(z3.If(c, B(a), B(b)))
    a, b = num(a), num(b)
    if not sym(a) and not sym(b) and type(a) is type(b) and a == b:
        return a
    if sym(a) and sym(b) and a.get_id() == b.get_id():
        return a
    if isinf(a) or isinf(b):
        raise Unsupported("symbolic choice between finite and infinite/nan values")
    if isint(a) and isint(b):
        return keep(z3.If(c, I(a), I(b)))
    return keep(z3.If(c, R(a), R(b)))


# ----------------------------------------------------------------------------- complex
class Cx:
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return "Cx(%r,%r)" % (self.re, self.im)


def cx(a):
    return a if isinstance(a, Cx) else Cx(a, 0)


# ----------------------------------------------------------------------------- functionals
class Fn:
    __slots__ = ("kind", "scal", "clos", "const", "deps", "name", "extra", "bodies", "memo")


FN = {}      # const ast id -> Fn
FNKEY = {}   # key -> Fn
_level = [0]


def bvar(level):
    return z3.Int("b!%d" % level)


_depcache = {}


def deps(t):
    """ids of free constants / function symbols names a term depends on (through functionals)"""
    if isinstance(t, Cx):
        return deps(t.re) | deps(t.im)
    if not sym(t):
        return frozenset()
    k = t.get_id()
    r = _depcache.get(k)
    if r is not None:
        return r
    keep(t)
    out = set()
    if z3.is_app(t):
        d = t.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            if t.num_args() == 0:
                f = FN.get(k)
                if f is not None:
                    out |= f.deps
                else:
                    out.add(str(d.name()))
            else:
                out.add(str(d.name()))
        for c in t.children():
            out |= deps(c)
    r = frozenset(out)
    _depcache[k] = r
    return r


def blevel(ds):
    m = 0
    for d in ds:
        if d.startswith("b!"):
            m = max(m, int(d[2:]))
    return m


def _bodies(clos, level):
    """evaluates the closures at placeholders level+1.."""
    out = []
    old = _level[0]
    try:
        for (doms, fn) in clos:
            ph = [bvar(level + 1 + i) for i in range(len(doms))]
            _level[0] = level + len(doms)
            out.append((tuple(ph), fn(*ph)))
    finally:
        _level[0] = old
    return out


PROBE = 500  # levels from here on are only used to find out what a closure depends on


def probe(fn, k=1):
    """the values of fn at k placeholders that occur nowhere else, and the placeholders"""
    old = _level[0]
    p = max(PROBE, old + 1)
    _level[0] = p + k - 1
    try:
        ph = [bvar(p + i) for i in range(k)]
        return fn(*ph), ph
    finally:
        _level[0] = old


def vkey(v):
    if isinstance(v, Cx):
        return ("cx", vkey(v.re), vkey(v.im))
    if sym(v):
        keep(v)
        return v.get_id()
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, (int, Fraction)):
        return ("n", Fraction(v))
    return ("o", repr(v))


def functional(kind, scal, clos, sort, extra=None):
    """clos: list of (domain sizes tuple, closure of that many indices); scal: tuple of scalars."""
    ds = set()
    for s in scal:
        ds |= deps(s)
    lev = 0
    for (doms, fn) in clos:
        for d in doms:
            ds |= deps(d)
        b, ph = probe(fn, len(doms))
        lev = max(lev, blevel(deps(b) - {str(p) for p in ph}))
    bods = _bodies(clos, max(lev, blevel(ds)))
    for ph, b in bods:
        ds |= deps(b) - {str(p) for p in ph}
    key = (kind, tuple(vkey(simp(s) if sym(s) else s) for s in scal),
           tuple((tuple(vkey(simp(d) if sym(d) else d) for d in doms), vkey(b)) for (doms, _f), (_p, b) in zip(clos, bods)), extra if isinstance(extra, (str, int, tuple)) else None)
    f = FNKEY.get(key)
    if f is None:
        f = Fn()
        f.kind, f.scal, f.clos, f.extra = kind, tuple(scal), list(clos), extra
        f.name = "%s!%d" % (kind, len(FNKEY))
        f.const = keep(z3.Const(f.name, sort))
        f.deps = frozenset(ds | {f.name})
        f.bodies = bods
        f.memo = {}
        FN[f.const.get_id()] = f
        FNKEY[key] = f
    return f.const


def fn_of(t):
    return FN.get(t.get_id()) if sym(t) else None


def memo_clos(fn):
    """closures are pure: cache their values per index"""
    cache = {}

    def g(*ix):
        k = tuple(vkey(i) for i in ix)
        r = cache.get(k)
        if r is None:
            r = fn(*ix)
            cache[k] = r
        return r
    return g


# ----------------------------------------------------------------------------- deep substitution
def dsubst(t, cmap, fmap=None, memo=None):
    """replaces constants (by name -> term) and function symbols (by name -> closure), also inside functionals"""
    if memo is None:
        memo = {}
    if isinstance(t, Cx):
        return Cx(dsubst(t.re, cmap, fmap, memo), dsubst(t.im, cmap, fmap, memo))
    if not sym(t):
        return t
    names = set(cmap) | set(fmap or ())
    return conc(_ds(t, cmap, fmap or {}, names, memo))


def subterms(t, p):
    """the subterms of t with property p, each once, from the outside in"""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if p(x):
            out.append(keep(x))
        todo += x.children()
    return out


ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS)


def _ds(t, cmap, fmap, names, memo):
    k = t.get_id()
    if k in memo:
        return memo[k]
    if not (deps(t) & names):
        memo[k] = t
        return t
    f = FN.get(k)
    if f is not None and f.name in cmap:
        r = T(cmap[f.name])
    elif f is not None:
        # closures are re-evaluated; an index that mentions a replaced name is put in afterwards, by the same simultaneous substitution
        def cl(fn):
            def g(*ix):
                if not any(sym(i) and deps(i) & names for i in ix):
                    return dsubst(fn(*ix), cmap, fmap)
                old = _level[0]
                p = max(PROBE, old + 1, blevel(cmap) + 1)
                _level[0] = p + len(ix) - 1
                try:
                    ph = [bvar(p + q) for q in range(len(ix))]
                    v = fn(*ph)
                finally:
                    _level[0] = old
                return dsubst(v, {**cmap, **{str(x): i for x, i in zip(ph, ix)}}, fmap)
            return memo_clos(g)
        r = rebuild(f, tuple(dsubst(s, cmap, fmap, memo) for s in f.scal), [(tuple(dsubst(d, cmap, fmap, memo) for d in doms), cl(fn)) for doms, fn in f.clos])
    elif t.num_args() == 0:
        r = cmap.get(str(t.decl().name()), t)
        r = T(r) if not sym(r) else r
        if r.sort() != t.sort():
            r = R(r) if t.sort() == z3.RealSort() else I(r)
    else:
        ch = [_ds(c, cmap, fmap, names, memo) for c in t.children()]
        nm = str(t.decl().name())
        if nm in fmap and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = fmap[nm](*[conc(c) for c in ch])
            r = R(r) if t.sort() == z3.RealSort() else B(r) if t.sort() == z3.BoolSort() else I(r)
        else:
            r = t.decl()(*ch)
            if r.sort() == IS and (r.decl().kind() in ARITH or all(z3.is_int_value(x) for x in ch)):
                r = T(simp(r))
    keep(r)
    memo[k] = r
    return r


REBUILD = {}


def unscaled(u):
    """u divided by the greatest common divisor of its coefficients (same sign)"""
    try:
        n, d = ratio(u)
    except Unsupported:
        return u
    if not n or len(d) != 1:
        return u
    num, den = 0, 1
    for c in n.values():
        num = math.gcd(num, abs(c.numerator))
        den = den * c.denominator // math.gcd(den, c.denominator)
    q = Fraction(num, den)
    return conc(p_term({m: c / q for m, c in n.items()})) if d == {(): 1} else u


def rebuild(f, scal, clos):
    """re-creates a functional term with other arguments (through its canonicalising constructor)"""
    h = REBUILD.get(f.kind)
    if h is not None:
        r = h(f, scal, clos)
    else:
        r = functional(f.kind, scal, clos, f.const.sort(), f.extra)
    if not sym(r):
        r = R(r) if f.const.sort() == z3.RealSort() else B(r) if f.const.sort() == z3.BoolSort() else I(r)
    if r.sort() != f.const.sort():
        r = R(r)
    return r


# ----------------------------------------------------------------------------- ring normaliser
# a polynomial is a dict {monomial: Fraction}; a monomial is a sorted tuple of (atom id, exponent)
ATOM = {}


def atom(t):
    keep(t)
    ATOM[t.get_id()] = t
    return {((t.get_id(), 1),): Fraction(1)}


def p_const(c):
    return {(): Fraction(c)} if c != 0 else {}


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def m_mul(a, b):
    d = dict(a)
    for k, e in b:
        v = d.get(k, 0) + e
        if v == 0:
            d.pop(k)
        else:
            d[k] = v
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > 20000:
        raise Unsupported("polynomial too large")
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    return p_red(r)


def p_red(p):
    """SQRT(t)^2 -> t, COS(a)^2 -> 1 - SIN(a)^2"""
    todo = [(m, k, e) for m in p for k, e in m if e >= 2 and z3.is_app(ATOM[k]) and str(ATOM[k].decl().name()) in ("SQRT", "COS")]
    if not todo:
        return p
    m, k, e = todo[0]
    c = p[m]
    rest = dict(p)
    rest.pop(m)
    mm = tuple((q, x if q != k else x - 2) for q, x in m if not (q == k and x == 2))
    a = ATOM[k]
    if str(a.decl().name()) == "SQRT":
        try:
            n, d = ratio(a.arg(0))
        except Unsupported:
            return p
        if len(d) != 1 or list(d) != [()]:
            return p
        rep = {q: v / d[()] for q, v in n.items()}
    else:
        rep = p_add(p_const(1), {((keep(SIN(a.arg(0))).get_id(), 2),): Fraction(1)}, -1)
        ATOM[SIN(a.arg(0)).get_id()] = SIN(a.arg(0))
    return p_red(p_add(rest, p_mul({mm: c}, rep)))


_ratio = {}
RS = z3.RealSort()
IS = z3.IntSort()
SQRT = z3.Function("SQRT", RS, RS)
EXP = z3.Function("EXP", RS, RS)
LOG = z3.Function("LOG", RS, RS)
SIN = z3.Function("SIN", RS, RS)
COS = z3.Function("COS", RS, RS)
TANH = z3.Function("TANH", RS, RS)
POW = z3.Function("POW", RS, RS, RS)
PI = z3.Real("PI")


def ratio(t):
    """numerator and denominator polynomials of a real or integer term"""
    if not sym(t):
        f = Fraction(num(t))
        return p_const(f), p_const(1)
    k = t.get_id()
    r = _ratio.get(k)
    if r is None:
        keep(t)
        r = _ratio_of(t)
        _ratio[k] = r
    return r


def _ratio_of(t):
    one = p_const(1)
    if z3.is_int_value(t) or z3.is_rational_value(t):
        return p_const(conc(t)), one
    if not z3.is_app(t):
        return atom(t), one
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_TO_REAL:
        a = ch[0]
        if z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) or z3.is_int_value(a):
            return ratio(a)
        return atom(a), one  # the integer itself is the atom
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        n, d = ratio(ch[0])
        for c in ch[1:]:
            n2, d2 = ratio(c)
            s = 1 if k == z3.Z3_OP_ADD else -1
            if d == d2:
                n = p_add(n, n2, s)
            else:
                n = p_add(p_mul(n, d2), p_mul(n2, d), s)
                d = p_mul(d, d2)
        return norm_r(n, d)
    if k == z3.Z3_OP_UMINUS:
        n, d = ratio(ch[0])
        return {m: -c for m, c in n.items()}, d
    if k == z3.Z3_OP_MUL:
        n, d = one, one
        for c in ch:
            n2, d2 = ratio(c)
            n, d = p_mul(n, n2), p_mul(d, d2)
        return norm_r(n, d)
    if k == z3.Z3_OP_DIV:
        n, d = ratio(ch[0])
        n2, d2 = ratio(ch[1])
        if not n2:
            return atom(t), one
        return norm_r(p_mul(n, d2), p_mul(d, n2))
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and conc(ch[1]).denominator == 1 and 0 <= conc(ch[1]) <= 12:
        n, d = ratio(ch[0])
        rn, rd = one, one
        for _ in range(int(conc(ch[1]))):
            rn, rd = p_mul(rn, n), p_mul(rd, d)
        return rn, rd
    if k == z3.Z3_OP_UNINTERPRETED and ch:
        eb = ELEM_BUILD.get(str(t.decl().name()))
        if eb is not None:
            # arguments of elementary functions in normal form
            _ratio[t.get_id()] = (atom(t), one)
            r = T(eb(*[conc(c) for c in ch]))
            if r.sort() == t.sort() and not r.eq(t):
                keep(r)
                return ratio(r)
    return atom(t), one

def norm_r(n, d):
    """cancels common monomial factors and scales the denominator"""
    if not n:
        return {}, p_const(1)
    if len(d) == 1:
        (m, c), = d.items()
        # cancel with negative exponents avoided: divide where every numerator monomial allows it
        can = []
        rest = []
        for k, e in m:
            lo = min(dict(q).get(k, 0) for q in n)
            x = min(lo, e)
            if x > 0:
                can.append((k, -x))
            if e - max(x, 0) > 0:
                rest.append((k, e - max(x, 0)))
        if can:
            cm = tuple(sorted(can))
            n = {m_mul(q, cm): v for q, v in n.items()}
        n = {q: v / c for q, v in n.items()}
        return n, {tuple(sorted(rest)): Fraction(1)}
    if n == d:
        return p_const(1), p_const(1)
    if len(d) <= 8 and len(n) <= 60:
        q = p_divide(n, d)
        if q is not None:
            return q, p_const(1)
    # common monomial factor of all terms
    common = None
    for q in list(n) + list(d):
        dq = dict(q)
        common = dq if common is None else {k: min(e, dq[k]) for k, e in common.items() if k in dq}
        if not common:
            break
    if common:
        cm = tuple(sorted((k, -e) for k, e in common.items()))
        n = {m_mul(q, cm): v for q, v in n.items()}
        d = {m_mul(q, cm): v for q, v in d.items()}
    # d = c * monomial-free poly: scale leading coefficient to 1
    lead = d[max(d)]
    if lead != 1:
        n = {q: v / lead for q, v in n.items()}
        d = {q: v / lead for q, v in d.items()}
    # n = k * d ?
    if len(n) == len(d) and set(n) == set(d):
        r = {n[q] / d[q] for q in n}
        if len(r) == 1:
            return p_const(r.pop()), p_const(1)
    return n, d


def m_term(m):
    """monomial as z3 Real"""
    r = None
    for k, e in m:
        a = ATOM[k]
        a = z3.ToReal(a) if a.sort() == IS else a
        for _ in range(e):
            r = a if r is None else r * a
    return r if r is not None else z3.RealVal(1)


def p_term(p):
    if not p:
        return z3.RealVal(0)
    out = None
    for m in sorted(p):
        c = p[m]
        t = m_term(m)
        if not m:
            t = z3.RealVal(str(c))
        elif c != 1:
            t = z3.RealVal(str(c)) * t
        out = t if out is None else out + t
    return keep(out)


def req(a, b):
    """ring equality of two real/integer scalars"""
    try:
        n, d = ratio(T(a) if not sym(a) else a)
        n2, d2 = ratio(T(b) if not sym(b) else b)
        if d == d2:
            return n == n2
        return p_add(p_mul(n, d2), p_mul(n2, d), -1) == {}
    except Unsupported:
        return False


# ----------------------------------------------------------------------------- elementary functions
def lead_sign(n):
    """sign of the leading coefficient of a polynomial (for odd/even functions)"""
    m = max(n, key=lambda q: (len(q), q))
    return 1 if n[m] > 0 else -1


def canon(t):
    """canonical representative of a real term up to ring equality"""
    if not sym(t):
        return R(t)
    try:
        n, d = ratio(t)
    except Unsupported:
        return t
    r = p_term(n)
    if d != p_const(1):
        r = r / p_term(d)
    return keep(z3.simplify(r)) if False else keep(r)


def int_content(n):
    """largest integer q such that n = q * (poly with coefficients that are not all multiples) for one-term polynomials"""
    if len(n) == 1:
        c = abs(next(iter(n.values())))
        if c.denominator == 1 and 2 <= c <= 4:
            return int(c)
    else:
        cs = [abs(c) for c in n.values()]
        if all(c.denominator == 1 for c in cs):
            from math import gcd
            g = 0
            for c in cs:
                g = gcd(g, int(c))
            if 2 <= g <= 4:
                return g
    return 1


def trig(t):
    """(cos t, sin t) with multiples and signs of the argument normalised"""
    if not sym(t):
        if t == 0:
            return 1, 0
        t = R(t)
    n, d = ratio(t)
    if not n:
        return 1, 0
    s = lead_sign(n)
    if s < 0:
        n = {m: -c for m, c in n.items()}
    q = int_content(n)
    if q > 1:
        n = {m: c / q for m, c in n.items()}
    a = p_term(n)
    if d != p_const(1):
        a = a / p_term(d)
    keep(a)
    c1, s1 = keep(COS(a)), keep(SIN(a))
    c, sn = c1, s1
    for _ in range(q - 1):
        c, sn = keep(c * c1 - sn * s1), keep(sn * c1 + c * s1)
    return c, s_neg(sn) if s < 0 else sn


def u_sqrt(t):
    if not sym(t):
        f = Fraction(t)
        import math
        a, b = math.isqrt(f.numerator) if f >= 0 else -1, math.isqrt(f.denominator)
        if f >= 0 and a * a == f.numerator and b * b == f.denominator:
            return Fraction(a, b)
        if f > 0:
            # a whole number without square divisors is all that stays below the root
            w = f.numerator * f.denominator
            q = _square_content({(): w})
            return s_mul(Fraction(q, f.denominator), keep(SQRT(R(w // (q * q)))))
        return keep(SQRT(R(t)))
    c = canon(R(t))
    q = 1
    try:
        n, d = ratio(c)
        if len(n) == 1:
            (m, v), = n.items()
            if v > 0 and v != 1:
                # sqrt(v x) = sqrt(v) sqrt(x), v a positive number
                return s_mul(u_sqrt(v), u_sqrt(conc(keep(p_term({m: Fraction(1)}) / p_term(d)))))
        q = _square_content(n) if n and len(n) <= 200 else 1
        if q != 1:
            c = p_term({m: v / (q * q) for m, v in n.items()})
            if d != p_const(1):
                c = c / p_term(d)
            c = canon(keep(c))
    except Unsupported:
        pass
    r = _psqrt.get(c.get_id())
    if r is None:
        r = _psqrt[c.get_id()] = _square_root(c)
        keep(c)
    r = r if r is not False else keep(SQRT(c))
    return s_mul(q, r) if q != 1 else r


_psqrt = {}


def _square_content(n):
    """q > 0 such that q^2 divides the content of the polynomial"""
    from math import gcd
    g, l = 0, 1
    for v in n.values():
        v = Fraction(v)
        g, l = gcd(g, abs(v.numerator)), l * v.denominator // gcd(l, v.denominator)
    if not g or g > 10 ** 8 or l > 10 ** 8:
        return 1
    a, q, p = g, 1, 2
    while p * p <= a and p < 1000:
        while a % (p * p) == 0:
            a //= p * p
            q *= p
        p += 1
    b, r, p = l, 1, 2
    while p * p <= b and p < 1000:
        while b % (p * p) == 0:
            b //= p * p
            r *= p
        p += 1
    # g / l = (q/r)^2 a/b
    return Fraction(q, r)


def _square_root(c):
    """the square root of a squared polynomial (its absolute value), or False"""
    import math
    try:
        n, d = ratio(c)
    except Unsupported:
        return False
    if d != p_const(1) or not n or len(n) > 40:
        return False

    def rt(m, v):
        if v <= 0 or any(e % 2 for _, e in m):
            return None
        a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if a * a != v.numerator or b * b != v.denominator:
            return None
        return tuple((k, e // 2) for k, e in m), Fraction(a, b)
    # monomials in lexicographic order of their exponents
    ks = sorted({k for m in n for k, _ in m})
    lex = lambda m: tuple(dict(m).get(k, 0) for k in ks)
    lead = max(n, key=lex)
    q = rt(lead, n[lead])
    if q is None:
        return False
    root = {q[0]: q[1]}
    for _ in range(len(n)):
        rem = p_add(n, p_mul(root, root), -1)
        if not rem:
            break
        m = max(rem, key=lex)
        dm, dq = dict(m), dict(q[0])
        if any(dm.get(k, 0) < e for k, e in dq.items()):
            return False
        t = m_mul(m, tuple((k, -e) for k, e in q[0]))
        if t in root:
            return False
        root[t] = rem[m] / (2 * q[1])
    else:
        return False
    r = p_term(root)
    if all(v > 0 and all(e % 2 == 0 for _, e in m) for m, v in root.items()):
        return keep(r)
    return keep(s_ite(s_cmp(">=", r, 0), r, s_neg(r)))


def u_exp(t):
    if not sym(t) and not isinf(t) and t == 0:
        return 1
    if isinf(t):
        return 0 if t < 0 else t
    return keep(EXP(canon(R(t))))


def u_log(t):
    if not sym(t) and t == 1:
        return 0
    if sym(t) and z3.is_app_of(t, z3.Z3_OP_UNINTERPRETED) and str(t.decl().name()) == "EXP":
        return conc(t.arg(0))
    try:
        n, d = ratio(R(t))
        if n == p_const(1) and d != p_const(1):
            return s_neg(keep(LOG(p_term(d))))
    except Unsupported:
        pass
    return keep(LOG(canon(R(t))))


def u_tanh(t):
    return keep(TANH(canon(R(t))))


def p_divide(n, d):
    """the polynomial q with n = q d, or None"""
    if not d:
        return None
    def lead(p):
        return max(p, key=lambda m: _mono_key(m))
    q, r = {}, dict(n)
    ld = lead(d)
    for _ in range(400):
        if not r:
            return q
        lr = lead(r)
        dm = dict(lr)
        for k, e in ld:
            if dm.get(k, 0) < e:
                return None
            dm[k] = dm[k] - e
        m = tuple(sorted((k, e) for k, e in dm.items() if e))
        c = r[lr] / d[ld]
        q[m] = q.get(m, 0) + c
        r = p_add(r, p_mul({m: c}, d), -1)
    return None


def _mono_key(m):
    """a monomial order: total degree, then lexicographic on exponents by atom"""
    return (sum(e for _, e in m), tuple((-k, e) for k, e in m))


def cancelled(t):
    """t as a fraction of which the denominator is cancelled where it divides the numerator, or the other way round"""
    try:
        n, d = ratio(R(t))
    except Unsupported:
        return t
    if len(d) > 1 and len(n) <= 60 and len(d) <= 60:
        # a common monomial of the numerator is kept aside
        com = None
        for m in n:
            dm = dict(m)
            com = dm if com is None else {k: min(e, dm[k]) for k, e in com.items() if k in dm}
        q = p_divide(n, d)
        if q is not None:
            return conc(p_term(q)) if q else 0
        if com:
            cm = tuple(sorted((k, -e) for k, e in com.items()))
            n2 = {m_mul(m, cm): v for m, v in n.items()}
            q = p_divide(d, n2)
            if q is not None:
                num_ = p_term({tuple(sorted(com.items())): Fraction(1)})
                nn, dd = ratio(keep(num_ / p_term(q)))
                r = p_term(nn)
                return conc(keep(r / p_term(dd))) if dd != p_const(1) else conc(r)
        q = p_divide(d, n)
        if q is not None:
            return conc(keep(1 / p_term(q)))
    return canon(R(t))


def u_pow(a, b):
    """real power with a non-integer or symbolic exponent"""
    a = cancelled(a)
    a = R(a)
    if z3.is_app_of(a, z3.Z3_OP_UNINTERPRETED) and str(a.decl().name()) == "POW" and not sym(b):
        e = conc(a.arg(1))
        if not sym(e):
            # (x^e)^b = x^(e b), x not negative
            p = Fraction(e) * Fraction(b)
            x = a.arg(0)
            if p.denominator == 1 and abs(p) <= 12:
                r = RealVal1
                for _ in range(abs(int(p))):
                    r = r * x
                return keep(r if p >= 0 else 1 / r)
            return u_pow(conc(x), p)
    return keep(POW(canon(a), canon(R(b))))


RealVal1 = z3.RealVal(1)


ELEM_BUILD = {"SIN": lambda x: trig(x)[1], "COS": lambda x: trig(x)[0], "EXP": u_exp, "LOG": u_log, "TANH": u_tanh, "POW": u_pow}


def mk_array(name, sort=None, dims=1):
    f = z3.Function(name, *([IS] * dims + [RS if sort is None else sort]))
    return lambda *ix: keep(f(*[I(i) for i in ix]))
