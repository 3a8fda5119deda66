"""The prover: facts about functional terms, instantiation, extensionality, ring reasoning, z3 and cvc5."""
import os
import select
import signal
import time

import z3

import finger
import terms as T_
from terms import (ATOM, B, Cx, FN, I, R, RS, IS, SQRT, Unsupported, T, bvar, conc, deps, dsubst, fn_of, functional, keep, m_term, p_add, p_mul,
                   p_term, ratio, req, s_add, s_and, s_cmp, s_eq, s_ite, s_mul, s_neg, s_not, s_or, s_sub, simp, sym)

z3.set_param("model.completion", False)
_fresh = [0]


def fresh(base, sort=IS):
    _fresh[0] += 1
    return keep(z3.Const("%s~%d" % (base, _fresh[0]), sort))


class Univ:
    """for all lo <= i < hi : fn(i)   (lo/hi None: unbounded)"""
    __slots__ = ("lo", "hi", "fn", "trig", "doc", "deps", "cache")

    def __init__(self, lo, hi, fn, doc=""):
        self.lo, self.hi, self.fn, self.doc = lo, hi, T_.memo_clos(fn), doc
        self.trig = None
        self.cache = {}

    def at(self, i):
        k = T_.vkey(i)
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = self.at_(i)
            if sym(r):
                keep(r)
        return r

    def at_(self, i):
        cs = []
        if self.lo is not None:
            cs.append(s_cmp("<=", self.lo, i))
        if self.hi is not None:
            cs.append(s_cmp("<", i, self.hi))
        c = s_and(*cs)
        b = self.fn(i)
        return s_or(s_not(c), b)

    def triggers(self):
        """(symbol, argument position, coefficient, offset) of applications that contain the bound index"""
        if self.trig is None:
            ph = z3.Int("b!90")
            t = self.fn(ph)
            out = set()
            if sym(t):
                _trig(t, ph, out, set())
            self.trig = sorted(out, key=repr)
        return self.trig


def _affine(t, ph):
    """t == c*ph + d with c in {1,-1}; returns (c, d) or None"""
    try:
        n, d = ratio(t)
    except Unsupported:
        return None
    if d != {(): 1}:
        return None
    k = ph.get_id()
    c = n.get(((k, 1),), 0)
    if c not in (1, -1):
        return None
    rest = {m: v for m, v in n.items() if m != ((k, 1),)}
    if any(q == k for m in rest for q, _ in m):
        return None
    if any(v.denominator != 1 for v in rest.values()):
        return None
    return int(c), rest


def p_int(p):
    """an integer polynomial as z3 Int term"""
    out = None
    for m in sorted(p):
        t = None
        for k, e in m:
            a = ATOM[k]
            if a.sort() != IS:
                raise Unsupported("not an integer")
            for _ in range(e):
                t = a if t is None else t * a
        c = int(p[m])
        t = z3.IntVal(c) if t is None else t if c == 1 else z3.IntVal(c) * t
        out = t if out is None else out + t
    return keep(out) if out is not None else z3.IntVal(0)


def _trig(t, ph, out, seen):
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    nm = str(ph.decl().name())
    if nm not in deps(t):
        return
    f = FN.get(t.get_id())
    if f is not None:
        for q, s in enumerate(f.scal):
            if sym(s) and s.sort() == IS and nm in deps(s):
                a = _affine(s, ph)
                if a:
                    out.add((("fn", f.kind, q), a[0], tuple(sorted(a[1].items()))))
        return
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
        for q, s in enumerate(t.children()):
            if s.sort() == IS and nm in deps(s):
                a = _affine(s, ph)
                if a:
                    out.add((("uf", str(t.decl().name()), q), a[0], tuple(sorted(a[1].items()))))
    for c in t.children():
        _trig(c, ph, out, seen)


# ----------------------------------------------------------------------------- functional constructors
def bodykey(f):
    return tuple(T_.vkey(b) for _p, b in f.bodies)


def has_bound(t, lev):
    return ("b!%d" % lev) in deps(t)


_expand = {}


def expand(n):
    """integer term with products multiplied out"""
    r = _expand.get(n.get_id())
    if r is None:
        r = n
        if n.get_id() not in FN and nonlinear(n):
            try:
                a, d = ratio(n)
                if d == {(): 1} and all(v.denominator == 1 for v in a.values()):
                    r = conc(simp(p_int(a)))
            except Unsupported:
                pass
        _expand[n.get_id()] = r
        keep(n)
    return r


def nonlinear(t):
    if z3.is_mul(t) and sum(1 for c in t.children() if not z3.is_int_value(c)) > 1:
        return True
    return any(nonlinear(c) for c in t.children()) if z3.is_add(t) or z3.is_mul(t) else False


def SUM(n, fn):
    """sum of fn(i) for 0 <= i < n, split into monomials with the factors independent of i taken out"""
    n = simp(n) if sym(n) else n
    n = expand(n) if sym(n) else n
    if not sym(n):
        if n <= 0:
            return 0
        if n <= 40:
            r = 0
            for i in range(int(n)):
                r = v_add(r, fn(i))
            return r
    probe = T_.probe(fn)[0]
    if isinstance(probe, Cx):
        return Cx(SUM(n, lambda i: T_.cx(fn(i)).re), SUM(n, lambda i: T_.cx(fn(i)).im))
    if not sym(probe):
        return s_mul(probe, clip0(n))
    return _lin("SUM", (n,), (n,), fn, lambda c: s_mul(c, clip0(n)))


def clip0(n):
    """number of indices 0 <= i < n"""
    if not sym(n):
        return max(n, 0)
    return CLIP(n)


NONNEG = [None]  # set by the prover: decides n >= 0 in the current context


def CLIP(n):
    if NONNEG[0] is not None and NONNEG[0](n):
        return n
    return s_ite(s_cmp(">=", n, 0), n, 0)


def v_add(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = T_.cx(a), T_.cx(b)
        return Cx(s_add(a.re, b.re), s_add(a.im, b.im))
    return s_add(a, b)


def _lin(kind, scal, doms, fn, const):
    """linear functional applied to fn: splits the body into monomials"""
    body, pv = T_.probe(fn)
    lev = T_.blevel(deps(body) - {str(pv[0])}) + 1
    for d in list(scal) + list(doms):
        lev = max(lev, T_.blevel(deps(d)) + 1)
    ph = bvar(lev)
    old = T_._level[0]
    T_._level[0] = lev
    try:
        body = fn(ph)
    finally:
        T_._level[0] = old
    if not sym(body):
        return const(body)
    if body.sort() == z3.BoolSort():
        body = T_.num(body)
    if len(doms) == 1:
        body = settle(body, ph, doms[0])
        if not sym(body):
            return const(body)
    try:
        n, d = ratio(body)
    except Unsupported:
        n = d = None
    if n is None:
        return functional(kind, scal, [(doms, T_.memo_clos(fn))], RS)
    nm = str(ph)
    dout, din = {}, {}
    if len(d) == 1:
        (m, c), = d.items()
        din_m = tuple((k, e) for k, e in m if nm in deps(ATOM[k]))
        dout_m = tuple((k, e) for k, e in m if nm not in deps(ATOM[k]))
        din, dout = {din_m: T_.Fraction(1)}, {dout_m: c}
    else:
        if nm in deps(p_term(d)):
            din, dout = d, T_.p_const(1)
        else:
            din, dout = T_.p_const(1), d
    groups = {}
    for m, c in n.items():
        mi = tuple((k, e) for k, e in m if nm in deps(ATOM[k]))
        mo = tuple((k, e) for k, e in m if nm not in deps(ATOM[k]))
        groups.setdefault(mi, {})[mo] = c
    total = 0
    name = str(ph.decl().name())
    for mi in sorted(groups):
        coef = p_term(groups[mi])
        coef = conc(coef)
        if dout != T_.p_const(1):
            coef = keep(R(coef) / p_term(dout))
        if not mi and din == T_.p_const(1):
            total = s_add(total, s_mul(coef, const(1)))
            continue
        t = m_term(mi)
        if din != T_.p_const(1):
            t = t / p_term(din)
        keep(t)
        cl = (lambda t: lambda i: dsubst(t, {name: i}))(t)
        total = s_add(total, s_mul(coef, functional(kind, scal, [(doms, T_.memo_clos(cl))], RS)))
    return total


_settled = {}


def settle(body, e, n):
    """case distinctions that single out the first (or last) index of 0 <= e < n, dropped where the value there is what the other case gives too"""
    key = (body.get_id(), e.get_id(), vkey_(n))
    if key in _settled:
        return _settled[key]
    cs = []
    ite_conds(body, cs, set())
    r = body
    nm = str(e)
    for c in cs:
        if nm not in deps(c) or not integral(c):
            continue
        for p in (0, s_sub(n, 1)):
            for v in (True, False):
                # outside the point, the condition is v
                at = T(s_eq(e, p))
                g = [e >= 0, e < T(n), (c if v else z3.Not(c)) == at]
                if z3check(g, 400) != z3.unsat:
                    continue
                A = subst_conds(r, {c.get_id(): v}, {})
                B = subst_conds(r, {c.get_id(): not v}, {})
                x, y = (renorm(dsubst(t, {nm: p}), {}) for t in (A, B))
                if not sym(x) and not sym(y) and x == y or (sym(x) or sym(y)) and req(R(x), R(y)):
                    r = A
                    break
            else:
                continue
            break
        if not sym(r):
            break
    keep(body)
    _settled[key] = r
    return r


def decide(h, t):
    """t with the conditions on integers replaced that are known to hold or to fail"""
    cs = []
    ite_conds(t, cs, set())
    known = {}
    for c in cs:
        if integral(c):
            v = True if entails(h, c) else False if entails(h, z3.Not(c)) else None
            if v is not None:
                known[c.get_id()] = v
    return subst_conds(t, known, {}) if known else t


def settled_sums(h, t):
    """t with the case distinctions inside its sums decided by what is known"""
    m = {}
    stack, seen = [t], set()
    while stack:
        u = stack.pop()
        if not sym(u) or u.get_id() in seen:
            continue
        seen.add(u.get_id())
        f = FN.get(u.get_id())
        if f is None:
            stack += u.children()
            continue
        if f.kind != "SUM":
            continue
        (dom,), fn = f.clos[0]
        e = fresh("e")
        body = fn(e)
        cs = []
        ite_conds(body, cs, set())
        known = {}
        hh = None
        for c in cs:
            if not integral(c):
                continue
            if hh is None:
                hh = h.plus(e >= 0, e < T(dom))
            v = True if entails(hh, c) else False if entails(hh, z3.Not(c)) else None
            if v is None:
                # everywhere but at the first index
                for w in (True, False):
                    if entails(hh, (c if w else z3.Not(c)) == (e != 0)):
                        A, B_ = (subst_conds(body, {**known, c.get_id(): q}, {}) for q in (w, not w))
                        x, y = (decide(h, renorm(dsubst(z, {str(e): 0}), {})) for z in (A, B_))
                        if not sym(x) and not sym(y) and x == y or (sym(x) or sym(y)) and req(x, y):
                            v = w
                        break
            if v is not None:
                known[c.get_id()] = v
        if known:
            nb = subst_conds(body, known, {})
            r = SUM(dom, (lambda nb, e: lambda i: dsubst(nb, {str(e): i}))(nb, e))
            m[u.get_id()] = T(r)
    return replace_consts(t, m) if m else t


def integral(c):
    """does the condition speak of integers only?"""
    return all(t.sort() == IS or t.sort() == z3.BoolSort() and integral(t) for t in c.children()) and (c.num_args() > 0 or z3.is_true(c) or z3.is_false(c))


def vkey_(n):
    return n.get_id() if sym(n) else n


T_.REBUILD["SUM"] = lambda f, scal, clos: SUM(scal[0], clos[0][1])


def CNT(n, p):
    n = simp(n) if sym(n) else n
    if not sym(n) and n <= 0:
        return 0
    if not sym(n) and n <= 24:
        r = 0
        for i in range(int(n)):
            r = s_add(r, T_.num(p(i)))
        return r
    q = T_.probe(p)[0]
    if not sym(q):
        return clip0(n) if q else 0
    return functional("CNT", (n,), [((None_dom(n),), T_.memo_clos(p))], IS)


def None_dom(n):
    return 0  # the domain is in the scalar argument


T_.REBUILD["CNT"] = lambda f, scal, clos: CNT(scal[0], clos[0][1])


def NTH(r, p):
    """the r-th index (from 0) at which p holds"""
    return functional("NTH", (r,), [((0,), T_.memo_clos(p))], IS)


T_.REBUILD["NTH"] = lambda f, scal, clos: NTH(scal[0], clos[0][1])


def FIRST(n, p):
    """smallest 0 <= i < n with p(i); n (clipped at 0) if there is none"""
    n = simp(n) if sym(n) else n
    if not sym(n) and n <= 0:
        return 0
    if not sym(n) and n <= 24:
        r = int(n)
        for i in reversed(range(int(n))):
            r = s_ite(p(i), i, r)
        return r
    q = T_.probe(p)[0]
    if not sym(q):
        return 0 if q else clip0(n)
    return functional("FIRST", (n,), [((0,), T_.memo_clos(p))], IS)


T_.REBUILD["FIRST"] = lambda f, scal, clos: FIRST(scal[0], clos[0][1])


def LAST(n, p):
    """largest 0 <= i < n with p(i); -1 if there is none"""
    n = simp(n) if sym(n) else n
    if not sym(n) and n <= 0:
        return -1
    if not sym(n) and n <= 24:
        r = -1
        for i in range(int(n)):
            r = s_ite(p(i), i, r)
        return r
    q = T_.probe(p)[0]
    if not sym(q):
        return s_sub(clip0(n), 1) if q else -1
    return functional("LAST", (n,), [((0,), T_.memo_clos(p))], IS)


T_.REBUILD["LAST"] = lambda f, scal, clos: LAST(scal[0], clos[0][1])


def ARGMAX(n, f):
    """first index of the largest f(i), 0 <= i < n (n >= 1)"""
    n = simp(n) if sym(n) else n
    if not sym(n) and n <= 24:
        r = 0
        for i in range(1, int(n)):
            r = s_ite(s_cmp(">", f(i), f(r) if not sym(r) else _pick(f, r, i)), i, r)
        return r
    return functional("ARGMAX", (n,), [((0,), T_.memo_clos(f))], IS)


def _pick(f, r, n):
    v = f(n - 1)
    for i in reversed(range(n - 1)):
        v = s_ite(s_eq(r, i), f(i), v)
    return v


T_.REBUILD["ARGMAX"] = lambda f, scal, clos: ARGMAX(scal[0], clos[0][1])


def ALL(n, p):
    """boolean: p(i) for all 0 <= i < n"""
    F = FIRST(n, lambda i: s_not(p(i)))
    return s_cmp(">=", F, n)


def ANY(n, p):
    return s_cmp("<", FIRST(n, p), n)


def PERM(r, n, key):
    """stable ascending argsort: the index of the r-th smallest key"""
    return functional("PERM", (r, n), [((0,), T_.memo_clos(key))], IS)


T_.REBUILD["PERM"] = lambda f, scal, clos: PERM(scal[0], scal[1], clos[0][1])


def INVP(i, n, key):
    """position of index i in the stable ascending argsort"""
    return functional("INVP", (i, n), [((0,), T_.memo_clos(key))], IS)


T_.REBUILD["INVP"] = lambda f, scal, clos: INVP(scal[0], scal[1], clos[0][1])


def DFT(k, n, re, im=None, inverse=False):
    """k-th coefficient of the discrete Fourier transform (real input: im None)"""
    k = simp(k) if sym(k) else k
    nm = "IFT" if inverse else "FFT"
    if im is None:
        clos = [((0,), T_.memo_clos(re))]
        return Cx(functional(nm + "r", (k, n), clos, RS, "re"), functional(nm + "i", (k, n), clos, RS, "im"))
    clos = [((0,), T_.memo_clos(re)), ((0,), T_.memo_clos(im))]
    return Cx(functional(nm + "cr", (k, n), clos, RS, "re"), functional(nm + "ci", (k, n), clos, RS, "im"))


SIMPW = z3.Function("SIMPW", IS, IS, RS)  # weights of Simpson's rule on n equally spaced samples (spacing 1)


HILK = z3.Function("HILK", IS, IS, RS)    # kernel of the discrete Hilbert transform of n samples


def hilbert(n, f, j):
    """imaginary part of scipy.signal.hilbert: a circular convolution"""
    return SUM(n, lambda i: s_mul(keep(HILK(n, s_sub(j, i))) if sym(n) else keep(HILK(z3.IntVal(n), s_sub(j, i))), f(i)))


def SIMP(n, f, h):
    """Simpson's rule over n equally spaced samples f(0..n-1), spacing h"""
    if not sym(n) and n <= 0:
        return 0
    r = _lin("SIMP", (n,), (n,), f, lambda c: s_mul(c, functional("SIMP", (n,), [((0,), lambda i: z3.RealVal(1))], RS)))
    return s_mul(r, h)


def MOM(n, f0, df, m, lo, hi, S_):
    """the moment of order m of the densities S_ on n samples f0 + i df between lo and hi (as specified in C12), linear in S_"""
    sc = (n, f0, df, m, lo, "inf" if isinstance(hi, float) else hi)
    return _lin("MOM", sc, (n,), S_, lambda c: s_mul(c, functional("MOM", sc, [((n,), lambda i: z3.RealVal(1))], RS)))


T_.REBUILD["MOM"] = lambda f, scal, clos: MOM(*scal[:5], float("inf") if scal[5] == "inf" else scal[5], clos[0][1])


def _simp_rebuild(f, scal, clos):
    return SIMP(scal[0], clos[0][1], 1)


T_.REBUILD["SIMP"] = _simp_rebuild


# ----------------------------------------------------------------------------- facts
def imp(a, b):
    return s_or(s_not(a), b)


def facts_of(f, sat):
    """ground facts and Univ facts of one functional term"""
    k, c = f.kind, f.const
    p = f.clos[0][1] if f.clos else None
    out = []
    if k == "SUM":
        n = f.scal[0]
        out.append(imp(s_cmp("<=", n, 0), s_eq(c, 0)))
        out.append(imp(s_eq(n, 1), s_eq(c, p(0))))
    elif k == "CNT":
        n = f.scal[0]
        out += [s_cmp(">=", c, 0), imp(s_cmp("<=", n, 0), s_eq(c, 0)), imp(s_cmp(">=", n, 0), s_cmp("<=", c, n))]
        out.append(Univ(0, n, lambda i: imp(s_eq(c, 0), s_not(p(i)))))
        # a witness for a positive count
        out.append(imp(s_cmp(">", c, 0), s_and(s_cmp("<", FIRST(n, p), n))))
        out.append(imp(s_cmp("==", c, 0), s_cmp(">=", FIRST(n, p), n)))
    elif k == "FIRST":
        n = f.scal[0]
        out += [s_cmp(">=", c, 0), imp(s_cmp(">=", n, 0), s_cmp("<=", c, n)), imp(s_cmp("<", n, 0), s_eq(c, 0)), imp(s_cmp("<", c, n), p(c))]
        out.append(Univ(0, c, lambda i: s_not(p(i))))
    elif k == "LAST":
        n = f.scal[0]
        out += [s_cmp(">=", c, -1), s_or(s_cmp("<", c, n), s_eq(c, -1)), imp(s_cmp(">=", c, 0), p(c))]
        out.append(Univ(s_add(c, 1), n, lambda i: s_not(p(i))))
    elif k == "ARGMAX":
        n = f.scal[0]
        out += [imp(s_cmp(">=", n, 1), s_and(s_cmp(">=", c, 0), s_cmp("<", c, n)))]
        out.append(Univ(0, n, lambda i: s_and(s_cmp("<=", p(i), p(c)), imp(s_cmp("<", i, c), s_cmp("<", p(i), p(c))))))
    elif k == "NTH":
        r = f.scal[0]
        pass  # see pairs()
    elif k == "PERM":
        r, n = f.scal
        ok = s_and(s_cmp(">=", r, 0), s_cmp("<", r, n))
        out.append(imp(ok, s_and(s_cmp(">=", c, 0), s_cmp("<", c, n))))
        iv = INVP(c, n, p)
        out.append(imp(ok, s_eq(iv, r)))
    elif k == "INVP":
        i, n = f.scal
        ok = s_and(s_cmp(">=", i, 0), s_cmp("<", i, n))
        out.append(imp(ok, s_and(s_cmp(">=", c, 0), s_cmp("<", c, n))))
        if not (sym(i) and fn_of(i) is not None and fn_of(i).kind == "PERM"):
            out.append(imp(ok, s_eq(PERM(c, n, p), i)))
    elif k in ("FFTr", "FFTi", "FFTcr", "FFTci"):
        kk, n = f.scal
        if k == "FFTi":
            out += [imp(s_eq(kk, 0), s_eq(c, 0)), imp(s_eq(s_mul(2, kk), n), s_eq(c, 0))]
    elif k in EXTRA_FACTS:
        out += EXTRA_FACTS[k](f, sat)
    return [x for x in out if x is not True]


EXTRA_FACTS = {}
_facts = {}


def elementary_facts(t, sat):
    nm = str(t.decl().name())
    out = []
    if nm == "SQRT":
        x = t.arg(0)
        out.append(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
        out.append(z3.Implies(x > 0, t > 0))
        out.append(z3.Implies(x == 0, t == 0))
        for o in sat.elem.get("SQRT", ()):
            if not o.eq(t):
                y = o.arg(0)
                out.append(z3.Implies(z3.And(x >= 0, y >= 0), z3.And((x < y) == (t < o), (x == y) == (t == o))))
    elif nm == "EXP":
        x = t.arg(0)
        out += [t > 0, z3.Implies(x == 0, t == 1), z3.Implies(x < 0, t < 1), z3.Implies(x > 0, t > 1)]
        for o in sat.elem.get("EXP", ()):
            if not o.eq(t):
                out.append((x < o.arg(0)) == (t < o))
                out.append((x == o.arg(0)) == (t == o))
    elif nm == "LOG":
        x = t.arg(0)
        out += [z3.Implies(x == 1, t == 0), z3.Implies(x > 1, t > 0), z3.Implies(z3.And(x > 0, x < 1), t < 0)]
    elif nm in ("SIN", "COS"):
        x = t.arg(0)
        s, c = T_.SIN(x), T_.COS(x)
        keep(s), keep(c)
        out += [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]
    elif nm == "TANH":
        x = t.arg(0)
        out += [t < 1, t > -1, z3.Implies(x > 0, t > 0), z3.Implies(x == 0, t == 0), z3.Implies(x < 0, t < 0), z3.Implies(x > 0, t < x)]
    elif nm == "POW":
        a, b = t.arg(0), t.arg(1)
        out += [z3.Implies(a > 0, t > 0), z3.Implies(a == 1, t == 1), z3.Implies(b == 0, t == 1), z3.Implies(b == 1, t == a)]
        out += [z3.Implies(z3.And(a > 1, b > 0), t > 1), z3.Implies(z3.And(a > 0, a < 1, b > 0), t < 1), z3.Implies(z3.And(a == 0, b > 0), t == 0)]
        for o in sat.elem.get("POW", ()):
            if not o.eq(t):
                a2, b2 = o.arg(0), o.arg(1)
                out.append(z3.Implies(z3.And(a == a2, b == b2), t == o))
                out.append(z3.Implies(z3.And(a > 0, a2 > 0, b == b2, b > 0, a < a2), t < o))
                out.append(z3.Implies(z3.And(a > 0, a2 > 0, b == b2, b > 0, a2 < a), o < t))
                out.append(z3.Implies(z3.And(a > 1, a == a2, b < b2), t < o))
                out.append(z3.Implies(z3.And(a > 1, a == a2, b2 < b), o < t))
    elif nm == "RND":
        x = t.arg(0)
        d = z3.ToReal(t) - x
        out += [d <= z3.RealVal("1/2"), d >= z3.RealVal("-1/2"), z3.Implies(z3.Or(d == z3.RealVal("1/2"), d == z3.RealVal("-1/2")), t % 2 == 0)]
    elif nm == "PI":
        out += [t > z3.RealVal("3.14159265358979"), t < z3.RealVal("3.1415926535898")]
    elif nm in ELEM_FACTS:
        out += ELEM_FACTS[nm](t, sat)
    return out


ELEM_FACTS = {}
RND = z3.Function("RND", RS, IS)


ELEM = ("SQRT", "EXP", "LOG", "SIN", "COS", "TANH", "POW", "RND")
_node = {}


def node(t):
    """(id, what, payload, index arguments, children, term)"""
    k = t.get_id()
    r = _node.get(k)
    if r is not None:
        return r
    keep(t)
    f = FN.get(k)
    if f is not None:
        args = [(("fn", f.kind, q), s) for q, s in enumerate(f.scal) if sym(s) and s.sort() == IS]
        r = (k, 1, f, args, [node(s) for s in f.scal if sym(s)], t)
    elif not z3.is_app(t):
        r = (k, 0, None, (), (), t)
    else:
        d = t.decl()
        ch = t.children()
        kids = [node(c) for c in ch]
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            nm = str(d.name())
            if ch:
                r = (k, 2, nm, [(("uf", nm, q), s) for q, s in enumerate(ch) if s.sort() == IS], kids, t)
            elif nm == "PI":
                r = (k, 3, nm, (), (), t)
            elif t.sort() == IS and "~" in nm:
                r = (k, 4, nm, (), (), t)
            else:
                r = (k, 0, nm, (), (), t)
        else:
            r = (k, 0, None, (), kids, t)
    _node[k] = r
    return r


class Sat:
    """saturation: collects the terms of a query and instantiates facts"""

    def __init__(self, cap=1500):
        self.facts = []
        self.seen = set()
        self.fns = {}
        self.fgroups = {}
        self.ufargs = {}
        self.idx = {}
        self.elem = {}
        self.univ = []
        self.done = set()
        self.unfold = []
        self.cap = cap
        self.ids = set()
        self.pend = []

    def group(self, kind, bk):
        return self.fgroups.get((kind, bk), ())

    def scan(self, t):
        if isinstance(t, Cx):
            self.scan(t.re), self.scan(t.im)
            return
        if not sym(t):
            return
        stack = [node(t)]
        seen = self.seen
        while stack:
            nd = stack.pop()
            k = nd[0]
            if k in seen:
                continue
            seen.add(k)
            what = nd[1]
            if what == 1:
                f = nd[2]
                self.fns[k] = f
                self.fgroups.setdefault((f.kind, bodykey(f)), []).append(f)
                self.pend.append(f)
                for key, s in nd[3]:
                    self.addarg(key, s)
                if f.const.sort() == IS:
                    self.idx[k] = f.const
            elif what == 2:
                nm = nd[2]
                for key, s in nd[3]:
                    self.addarg(key, s)
                if nm in ELEM or nm in ELEM_FACTS:
                    self.elem.setdefault(nm, []).append(nd[5])
                    self.pend.append(nd[5])
            elif what == 3:
                self.pend.append(nd[5])
            elif what == 4:
                self.idx[k] = nd[5]
            stack += nd[4]

    def addarg(self, key, s):
        d = self.ufargs.setdefault(key, {})
        if s.get_id() not in d:
            keep(s)
            d[s.get_id()] = s
        if len(self.idx) < 60 and (z3.is_const(s) or True):
            self.idx.setdefault(s.get_id(), s)

    def add(self, x):
        if isinstance(x, Univ):
            self.univ.append(x)
            return
        x = simp(x) if sym(x) else x
        if x is True:
            return
        if x is False:
            self.facts.append(z3.BoolVal(False))
            return
        if x.get_id() in self.ids:
            return
        self.ids.add(x.get_id())
        self.facts.append(x)
        self.scan(x)

    def run(self, rounds=3):
        for _ in range(rounds):
            before = len(self.facts)
            while self.pend:
                p = self.pend.pop()
                new = self.facts1(p) if not sym(p) else elementary_facts(p, self)
                for x in new:
                    self.add(x)
                if len(self.facts) > self.cap:
                    return
            self.congruence()
            for u in list(self.univ):
                for i in self.instances(u):
                    key = (id(u), i.get_id())
                    if key in self.done:
                        continue
                    self.done.add(key)
                    try:
                        self.add(u.at(conc(i)))
                    except Unsupported:
                        pass
                    if len(self.facts) > self.cap:
                        return
            if len(self.facts) == before and not self.pend:
                break

    def facts1(self, f):
        if f.kind in EXTRA_FACTS:
            return facts_of(f, self)
        r = _facts.get(f.name)
        if r is None:
            r = _facts[f.name] = facts_of(f, self)
        return r

    def instances(self, u):
        tr = u.triggers()
        out = {}
        if not tr:
            for i in list(self.idx.values()):
                out[i.get_id()] = i
            for b in (u.lo, s_sub(u.hi, 1) if u.hi is not None else None):
                if b is not None:
                    b = T(b)
                    keep(b)
                    out[b.get_id()] = b
        for key, c, rest in tr:
            for s in list(self.ufargs.get(key, {}).values()):
                try:
                    n, d = ratio(s)
                    if d != {(): 1}:
                        continue
                    q = p_add(n, dict(rest), -1)
                    if c == -1:
                        q = {m: -v for m, v in q.items()}
                    i = simp(p_int(q)) if any(m for m in q) or True else None
                    i = T(i) if not sym(i) else i
                    keep(i)
                    out[i.get_id()] = i
                except Unsupported:
                    pass
        return list(out.values())[:80]

    def congruence(self):
        """facts about pairs of functional terms over the same index function"""
        for (kind, bk), fs in list(self.fgroups.items()):
            if len(fs) <= 14:
                for a in range(len(fs)):
                    for b in range(a):
                        f, g = fs[a], fs[b]
                        key = ("cg", f.const.get_id(), g.const.get_id())
                        if key in self.done or len(f.scal) != len(g.scal):
                            continue
                        self.done.add(key)
                        eqs = [s_eq(x, y) for x, y in zip(f.scal, g.scal)]
                        c = s_and(*eqs)
                        if c is not False:
                            self.add(imp(c, s_eq(f.const, g.const)))
                        for x, y in ((f, g), (g, f)):
                            try:
                                self.pair(kind, x, y)
                            except Unsupported:
                                pass
            if kind == "CNT":
                for r in self.fgroups.get(("NTH", bk), ())[:10]:
                    for g in fs[:10]:
                        key = ("nc", r.const.get_id(), g.const.get_id())
                        if key in self.done:
                            continue
                        self.done.add(key)
                        p, rr, c, n = r.clos[0][1], r.scal[0], r.const, g.scal[0]
                        self.add(imp(s_and(s_cmp(">=", rr, 0), s_cmp("<", rr, g.const)), s_and(s_cmp(">=", c, 0), s_cmp("<", c, n), p(c))))
                        self.add(imp(s_and(s_cmp(">=", rr, 0), s_cmp(">=", rr, g.const)), s_cmp(">=", c, n)))
                        self.add(imp(s_and(s_cmp(">=", n, 0), s_eq(rr, g.const), p(n)), s_eq(c, n)))
                        if sym(n) and n.eq(c):
                            # r places before the r-th one
                            for g2 in fs[:10]:
                                if g2 is not g:
                                    self.add(imp(s_and(s_cmp(">=", rr, 0), s_cmp("<", rr, g2.const)), s_eq(g.const, rr)))
                    for other, what in ((self.fgroups.get(("FIRST", bk), ()), 0), (self.fgroups.get(("LAST", bk), ()), 1)):
                        for q in other[:4]:
                            for g in fs[:4]:
                                key = ("nf", r.const.get_id(), q.const.get_id(), g.const.get_id())
                                if key in self.done or s_eq(g.scal[0], q.scal[0]) is False:
                                    continue
                                self.done.add(key)
                                idx = 0 if what == 0 else s_sub(g.const, 1)
                                self.add(imp(s_and(s_eq(g.scal[0], q.scal[0]), s_cmp(">", g.const, 0), s_eq(r.scal[0], idx)), s_eq(r.const, q.const)))

    def pair(self, kind, x, y):
        """facts about x in terms of y (same kind, same index functions)"""
        if kind in ("SUM", "CNT", "LAST"):
            st = s_eq(x.scal[0], s_add(y.scal[0], 1))
            if st is not False:
                ok = s_and(s_cmp(">=", y.scal[0], 0), st)
                body = y.clos[0][1](y.scal[0])
                if kind == "LAST":
                    self.add(imp(ok, s_eq(x.const, s_ite(body, y.scal[0], y.const))))
                else:
                    self.add(imp(ok, s_eq(x.const, s_add(y.const, T_.num(body)))))
            if kind == "CNT":
                self.add(imp(s_cmp("<=", y.scal[0], x.scal[0]), s_cmp("<=", y.const, x.const)))
        elif kind == "FIRST":
            le = s_and(s_cmp(">=", y.scal[0], 0), s_cmp("<=", y.scal[0], x.scal[0]))
            if le is not False:
                self.add(imp(s_and(le, s_cmp("<", x.const, y.scal[0])), s_eq(y.const, x.const)))
                self.add(imp(s_and(le, s_cmp(">=", x.const, y.scal[0])), s_eq(y.const, y.scal[0])))
        elif kind == "NTH":
            self.add(imp(s_and(s_cmp(">=", y.scal[0], 0), s_cmp("<", y.scal[0], x.scal[0])), s_cmp("<", y.const, x.const)))
        elif kind in ("FFTr", "FFTi"):
            self.add(imp(s_and(s_eq(x.scal[1], y.scal[1]), s_eq(s_add(x.scal[0], y.scal[0]), x.scal[1])), s_eq(x.const, y.const if kind == "FFTr" else s_neg(y.const))))
        elif kind == "PERM":
            r, n = x.scal
            r2, n2 = y.scal
            p = x.clos[0][1]
            a, b = y.const, x.const
            both = s_and(s_cmp(">=", r2, 0), s_cmp("<", r2, r), s_cmp("<", r, n), s_eq(n, n2))
            if both is not False:
                self.add(imp(both, s_or(s_cmp("<", p(a), p(b)), s_and(s_eq(p(a), p(b)), s_cmp("<", a, b)))))


# ----------------------------------------------------------------------------- the prover
class Stats:
    z3_calls = 0
    z3_time = 0.0
    cvc5_calls = 0
    cvc5_time = 0.0
    ring = 0
    by = {}


def count(b):
    Stats.by[b] = Stats.by.get(b, 0) + 1


DEADLINE = [None]
SCALE = [1]
LOG = os.environ.get("PYVC_LOG")


class OutOfTime(Exception):
    pass


_clock = [time.time(), sum(os.times()[:4]), 1.0]


def slow():
    """how much slower than alone this process runs: limits are in elapsed time, and other processes may have the processors"""
    now = time.time()
    if now - _clock[0] > 5:
        cpu = sum(os.times()[:4])
        _clock[2] = min(4.0, max(1.0, (now - _clock[0]) / max(cpu - _clock[1], 0.1)))
        _clock[0], _clock[1] = now, cpu
    return _clock[2]


FORK = [False]


def apart(s, ms):
    """the check in a process of its own, ended when its time is up (root isolation in z3 does not look at its time limit)"""
    rd, wr = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            r = s.check()
            os.write(wr, b"u" if r == z3.unsat else b"s" if r == z3.sat else b"?")
        finally:
            os._exit(0)
    os.close(wr)
    ready = select.select([rd], [], [], ms * 1.5 / 1000 + 0.5)[0]
    got = os.read(rd, 1) if ready else b""
    if not ready:
        os.kill(pid, signal.SIGKILL)
    os.close(rd)
    os.waitpid(pid, 0)
    return z3.unsat if got == b"u" else z3.sat if got == b"s" else z3.unknown


def z3check(assertions, ms=4000, model=False):
    if DEADLINE[0] and time.time() > DEADLINE[0]:
        raise OutOfTime()
    ms *= slow()
    s = z3.Solver()
    s.set("timeout", int(ms * SCALE[0]))
    for a in assertions:
        s.add(a)
    t = time.time()
    r = apart(s, ms * SCALE[0]) if FORK[0] and not model else s.check()
    Stats.z3_calls += 1
    Stats.z3_time += time.time() - t
    if LOG and time.time() - t > 1:
        print("  z3 %.1f s -> %s (%d assertions)" % (time.time() - t, r, len(assertions)), flush=True)
    if model:
        return r, (s.model() if r == z3.sat else None)
    return r


def cvc5check(assertions, ms=8000):
    try:
        import cvc5
    except ImportError:
        return "unknown"
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    txt = s.to_smt2()
    t = time.time()
    try:
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(int(ms * SCALE[0] * slow())))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt.replace("(check-sat)", ""), "q")
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            c.invoke(slv, sm)
        r = slv.checkSat()
        res = "unsat" if r.isUnsat() else "sat" if r.isSat() else "unknown"
    except Exception as e:
        res = "unknown"
        if LOG:
            print("  cvc5", str(e)[:200])
    Stats.cvc5_calls += 1
    Stats.cvc5_time += time.time() - t
    return res


class Hyps:
    """immutable list of assumptions (z3 Bools and Univ)"""

    def __init__(self, items=()):
        self.items = tuple(items)
        self.key = frozenset(x.get_id() if sym(x) else id(x) for x in self.items)

    def plus(self, *xs):
        new = []
        for x in xs:
            if x is True:
                continue
            if x is False:
                x = z3.BoolVal(False)
            if sym(x):
                keep(x)
            new.append(x)
        return Hyps(self.items + tuple(new)) if new else self


_cache = {}
_quick = {}


def sat_for(hyps, extra, rounds=3, cap=1500):
    s = Sat(cap)
    for h in hyps.items:
        s.add(h)
    for e in extra:
        s.add(e)
    s.run(rounds)
    return s


def entails(hyps, goal, ms=1500, rounds=2):
    """quick check used while exploring paths"""
    goal = simp(goal) if sym(goal) else goal
    if not sym(goal):
        return bool(goal)
    k = (hyps.key, goal.get_id(), rounds)
    r = _quick.get(k)
    if r is None:
        keep(goal)
        ng = z3.Not(goal)
        base = [h for h in hyps.items if sym(h)]
        r = z3check(base + [ng], 400) == z3.unsat
        if not r:
            s = sat_for(hyps, [ng], rounds, 500)
            if len(s.facts) > len(base) + 1:
                r = z3check(s.facts, ms) == z3.unsat
        _quick[k] = r
        _quick[("h",) + k] = hyps  # keep ids alive
    return r


def consistent(hyps, ms=2000):
    """False when the hypotheses are contradictory (proved)"""
    s = sat_for(hyps, [], 2)
    return z3check(s.facts, ms) != z3.unsat


def ite_conds(t, out, seen, lim=40):
    if isinstance(t, Cx):
        ite_conds(t.re, out, seen), ite_conds(t.im, out, seen)
        return
    if not sym(t) or t.get_id() in seen:
        return
    seen.add(t.get_id())
    if t.get_id() in FN:
        return
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c = t.arg(0)
        ite_conds(c, out, seen)
        if not any(o.eq(c) for o in out) and len(out) < lim:
            out.append(c)
    for ch in t.children():
        ite_conds(ch, out, seen)


def subst_conds(t, known, memo):
    """replaces ite conditions whose value is known"""
    if isinstance(t, Cx):
        return Cx(subst_conds(t.re, known, memo), subst_conds(t.im, known, memo))
    if not sym(t):
        return t
    k = t.get_id()
    if k in memo:
        return memo[k]
    if k in known and z3.is_bool(t):
        return z3.BoolVal(known[k])
    if k in FN or not z3.is_app(t) or not t.num_args():
        return t
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c = T(subst_conds(t.arg(0), known, memo))
        v = known.get(t.arg(0).get_id())
        if v is None:
            v = known.get(c.get_id())
        if v is None:
            cs = simp(c)
            if not sym(cs):
                v = bool(cs)
        if v is not None:
            r = subst_conds(t.arg(1) if v else t.arg(2), known, memo)
        else:
            r = z3.If(c, *[_as(subst_conds(x, known, memo), t.sort()) for x in t.children()[1:]])
    else:
        ch = [subst_conds(c, known, memo) for c in t.children()]
        ch = [_as(c, o.sort()) for c, o in zip(ch, t.children())]
        r = rebuild_elem(t, ch) if any(not a.eq(b) for a, b in zip(ch, t.children())) else t
    if sym(r):
        keep(r)
    memo[k] = r
    return r


def rebuild_elem(t, ch):
    """t with other arguments; the arguments of elementary functions are brought to their normal form again"""
    f = T_.ELEM_BUILD.get(str(t.decl().name())) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
    if f is not None:
        return _as(f(*[conc(c) for c in ch]), t.sort())
    return t.decl()(*ch)


def _as(x, sort):
    if sort == RS:
        return R(x)
    if sort == IS:
        return I(x)
    if sort == z3.BoolSort():
        return B(x)
    return x


def bool_atoms(c, out):
    if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
        for x in c.children():
            bool_atoms(x, out)
    elif sym(c):
        out.append(c)
    return out


def index_equation(c):
    """(name, term) of an equation of an integer constant with a term that does not mention it"""
    if not (z3.is_eq(c) and c.arg(0).sort() == IS):
        return None
    for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
        if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.get_id() not in FN:
            nm = str(a.decl().name())
            if nm not in T_.deps(b):
                return nm, b
    return None


def over_integers(c):
    return all(a.num_args() and a.arg(0).sort() == IS for a in bool_atoms(c, []))


def cases(hyps, ts, lim=64):
    """splits on the conditions of ites in ts: list of (hyps, ts) with ite-free terms"""
    out = []
    stack = [(hyps, list(ts))]
    while stack:
        h, us = stack.pop()
        cs = []
        seen = set()
        for u in us:
            ite_conds(u, cs, seen)
        if not cs:
            out.append((h, us))
            if len(out) > lim:
                return None
            continue
        c, eqn = cs[0], None
        for q in cs:
            for a in bool_atoms(q, []):
                if z3.is_eq(a) and index_equation(a):
                    c, eqn = a, index_equation(a)
                    break
            if eqn:
                break
        else:
            c = next((q for q in cs if over_integers(q)), c)
        known = {}
        ms = 1500 if eqn or over_integers(c) else 500
        if entails(h, c, ms):
            branches = [(h.plus(c) if eqn else h, True)]
        elif entails(h, s_not(c), ms):
            branches = [(h, False)]
        else:
            branches = [(h.plus(c), True), (h.plus(z3.Not(c)), False)]
            if len(stack) + len(out) > lim:
                return None
        for h2, v in branches:
            vs = [subst_conds(u, {c.get_id(): v}, {}) for u in us]
            if eqn and v:
                vs = [T_.dsubst(u, dict([eqn])) for u in vs]
            stack.append((h2, vs))
    return out


LINEAR = {"SUM", "SIMP", "MOM", "IFTcr", "IFTci", "IFTr", "IFTi", "FFTr", "FFTi", "FFTcr", "FFTci"}


def prove(hyps, goal, depth=0, ms=6000):
    """'proved' or a failure description"""
    if isinstance(goal, bool):
        goal = z3.BoolVal(goal)
    goal0 = goal
    goal = simp(goal)
    if not sym(goal):
        if goal:
            count("simplifier")
            return True
        return entails_false(hyps)
    k = (hyps.key, goal.get_id(), depth)
    if k in _cache:
        return _cache[k]
    keep(goal)
    r = _prove(hyps, goal, depth, ms)
    _cache[k] = r
    _cache[("h",) + k] = hyps
    return r


_false = {}


def entails_false(hyps):
    r = _false.get(hyps.key)
    if r is None:
        r = _false[hyps.key] = entails_false_(hyps)
        _false[("h", hyps.key)] = hyps
    return r


def entails_false_(hyps):
    s = sat_for(hyps, [], 3)
    r = z3check(s.facts, 4000) == z3.unsat
    if r:
        count("z3")
    return r


def _prove(hyps, goal, depth, ms):
    if z3.is_and(goal):
        return all(prove(hyps, g, depth, ms) for g in goal.children())
    if z3.is_not(goal) and z3.is_or(goal.arg(0)):
        return all(prove(hyps, z3.Not(g), depth, ms) for g in goal.arg(0).children())
    if z3.is_implies(goal):
        return prove(hyps.plus(goal.arg(0)), goal.arg(1), depth, ms)
    if z3.is_or(goal):
        # assume the negation of all but one disjunct
        ch = goal.children()
        eqs = [c for c in ch if z3.is_eq(c) and c.arg(0).sort() == RS]
        if eqs and len(ch) > 1:
            e = eqs[-1]
            h = hyps.plus(*[s_not(c) for c in ch if not c.eq(e)])
            if eq_prove(h, e.arg(0), e.arg(1), depth, ms):
                return True
    if z3.is_eq(goal) and goal.arg(0).sort() in (RS, IS):
        return eq_prove(hyps, goal.arg(0), goal.arg(1), depth, ms)
    sg = sign_goal(goal)
    if sg is not None and sign(hyps, *sg):
        count("signs")
        return True
    return smt(hyps, goal, depth, ms)


def sign_goal(g):
    """(term, strict) of a goal 0 <= term or 0 < term"""
    neg = z3.is_not(g)
    a = g.arg(0) if neg else g
    if not (z3.is_le(a) or z3.is_ge(a)):
        return None
    lo, hi = (a.arg(0), a.arg(1)) if z3.is_le(a) else (a.arg(1), a.arg(0))
    if lo.sort() != RS:
        return None
    if neg:
        lo, hi = hi, lo
    if z3.is_rational_value(lo) and lo.numerator_as_long() == 0:
        return hi, neg
    if z3.is_rational_value(hi) and hi.numerator_as_long() == 0:
        return s_neg(lo), neg
    return None


POSSUM = {"SUM"}                    # functionals that are sums of their values with positive weights
POSELEM = {"EXP"}


def factors(t, out):
    if z3.is_mul(t):
        for c in t.children():
            factors(c, out)
    elif z3.is_app_of(t, z3.Z3_OP_POWER) and z3.is_int_value(t.arg(1)) and 0 < t.arg(1).as_long() < 12:
        for _ in range(t.arg(1).as_long()):
            factors(t.arg(0), out)
    else:
        out.append(t)
    return out


def sign(h, t, strict=False, depth=0):
    """t >= 0 (t > 0) by the signs of its parts: products, quotients, sums, cases, exponentials, sums over indices"""
    if not sym(t):
        return t > 0 if strict else t >= 0
    if depth > 24:
        return False
    if z3.is_rational_value(t) or z3.is_int_value(t):
        v = t.as_fraction() if z3.is_rational_value(t) else t.as_long()
        return v > 0 if strict else v >= 0
    go = lambda x, s=strict: sign(h, x, s, depth + 1)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        for cc, x in ((c, a), (z3.Not(c), b)):
            hc = h.plus(simp(cc))
            if not sign(hc, x, strict, depth + 1) and consistent(hc, 500):
                return False
        return True
    if z3.is_mul(t):
        fs = factors(t, [])
        left = []
        for f in fs:
            for i, g in enumerate(left):
                if g.eq(f):
                    del left[i]
                    if strict and not entails(h, s_not(s_eq(f, 0))):
                        return False
                    break
            else:
                left.append(f)
        minus = 0
        rest = []
        for f in left:
            if z3.is_rational_value(f) and f.numerator_as_long() < 0:
                minus += 1
            elif z3.is_rational_value(f):
                if f.numerator_as_long() == 0:
                    return not strict
            else:
                rest.append(f)
        for f in rest:
            if go(f):
                continue
            if go(s_neg(f)):
                minus += 1
                continue
            return leaf_sign(h, t, strict)
        return minus % 2 == 0 or leaf_sign(h, t, strict)
    if z3.is_app_of(t, z3.Z3_OP_UMINUS) and z3.is_mul(t.arg(0)):
        return go(simp(t))
    if z3.is_div(t):
        a, b = t.children()
        if go(b, True):
            return go(a)
        if go(s_neg(b), True):
            return go(s_neg(a))
        return False
    if z3.is_add(t):
        if leaf_sign(h, t, strict):
            return True
        any_ = False
        for c in t.children():
            if not sign(h, c, False, depth + 1):
                return False
            any_ = any_ or strict and sign(h, c, True, depth + 1)
        return any_ or not strict
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return bool(entails(h, s_cmp(">" if strict else ">=", t.arg(0), 0)))
    nm = t.decl().name()
    if nm in POSELEM:
        return True
    f = fn_of(t)
    if f is not None and (f.kind in POSSUM or f.kind == "SIMP" and not strict):
        if leaf_sign(h, t, strict):
            return True
        n = f.scal[0]
        i = fresh("i")
        hi = h.plus(i >= 0, s_cmp("<", i, n))
        if strict and not entails(h, s_cmp(">=", n, 1)):
            return False
        return sign(hi, T_.num(f.clos[0][1](i)), strict, depth + 1)
    return leaf_sign(h, t, strict)


def leaf_sign(h, t, strict):
    return bool(entails(h, s_cmp(">" if strict else ">=", t, 0)))


def smt(hyps, goal, depth, ms):
    ng = z3.Not(goal)
    base = [h for h in hyps.items if sym(h)]
    if z3check(base + [ng], 700) == z3.unsat:
        count("z3")
        return True
    s = sat_for(hyps, [ng])
    r = z3check(s.facts, ms if depth == 0 else ms // 3)
    if r == z3.unsat:
        count("z3")
        return True
    if depth < 2:
        eqs = extensional(hyps, s, depth)
        if eqs:
            for e in eqs:
                s.add(e)
            s.run(2)
            if z3check(s.facts, ms) == z3.unsat:
                count("z3+extensionality")
                return True
    if depth > 0 and (r == z3.sat or depth > 1):
        return False
    if cvc5check(s.facts, 2 * ms) == "unsat":
        count("cvc5")
        return True
    return False


def shape(f):
    return (f.kind, len(f.scal), len(f.clos), f.extra if isinstance(f.extra, (str, int, tuple)) else None)


def extensional(hyps, sat, depth):
    """equalities between functional terms whose arguments are provably equal"""
    fs = list(sat.fns.values())
    by = {}
    for f in fs:
        by.setdefault(shape(f), []).append(f)
    out = []
    for sh, g in by.items():
        reps = []
        for f in g[:14]:
            for r in reps:
                if bodykey(f) == bodykey(r) and len(f.scal) and not all(T_.vkey(a) == T_.vkey(b) for a, b in zip(f.scal, r.scal)):
                    continue
                if same_fn(hyps, f, r, depth):
                    out.append(f.const == r.const)
                    break
            else:
                reps.append(f)
    for f in fs:
        out += inverse_rules(hyps, f, sat, depth)
    return [keep(e) if sym(e) else e for e in out]


def domain(f, j):
    """range of the bound index of closure j of a functional"""
    if f.kind in ("SUM", "CNT", "FIRST", "LAST", "ARGMAX", "SIMP", "MOM"):
        return f.scal[0]
    if f.kind in ("PERM", "INVP", "FFTr", "FFTi", "FFTcr", "FFTci", "IFTr", "IFTi", "IFTcr", "IFTci"):
        return f.scal[1]
    d = f.clos[j][0][0]
    return d if sym(d) or d else None


def same_fn(hyps, f, g, depth):
    """are two functional terms provably equal by equality of their arguments?"""
    if shape(f) != shape(g):
        return False
    for a, b in zip(f.scal, g.scal):
        if T_.vkey(a) != T_.vkey(b) and not req(a, b):
            if not prove(hyps, s_eq(a, b), 2):
                return False
    for j, (cf, cg) in enumerate(zip(f.clos, g.clos)):
        if len(cf[0]) != 1:
            i = [fresh("e") for _ in cf[0]]
            h = hyps
        else:
            i = [fresh("e")]
            n = domain(f, j)
            h = hyps.plus(i[0] >= 0)
            if n is not None:
                h = h.plus(s_cmp("<", i[0], n))
        try:
            a, b = cf[1](*i), cg[1](*i)
        except Unsupported:
            return False
        if finger.differ(h, a, b) or not veq(h, a, b, depth + 1):
            return False
    return True


def veq(h, a, b, depth):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = T_.cx(a), T_.cx(b)
        return veq(h, a.re, b.re, depth) and veq(h, a.im, b.im, depth)
    if not sym(a) and not sym(b):
        return a == b
    return prove(h, s_eq(a, b), depth)


def inverse_rules(hyps, f, sat, depth):
    """IFT(FFT(x)) = x when the argument is pointwise the transform of x"""
    if f.kind not in ("IFTcr", "IFTci"):
        return []
    j, n = f.scal
    ph_bodies = [b for _p, b in f.bodies]
    fams = {}

    def walk(t, seen):
        if isinstance(t, Cx):
            walk(t.re, seen), walk(t.im, seen)
            return
        if not sym(t) or t.get_id() in seen:
            return
        seen.add(t.get_id())
        g = FN.get(t.get_id())
        if g is not None:
            if g.kind in ("FFTr", "FFTi"):
                fams[bodykey(g)] = g
            return
        for c in t.children():
            walk(c, seen)
    seen = set()
    for b in ph_bodies:
        walk(b, seen)
    for g in fams.values():
        x = g.clos[0][1]
        if not prove(hyps, s_eq(g.scal[1], n), 2):
            continue
        i = fresh("k")
        h = hyps.plus(i >= 0, s_cmp("<", i, n))
        X = DFT(i, n, x)
        if veq(h, f.clos[0][1](i), X.re, depth + 1) and veq(h, f.clos[1][1](i), X.im, depth + 1):
            ok = s_and(s_cmp(">=", j, 0), s_cmp("<", j, n))
            return [imp(ok, s_eq(f.const, x(j) if f.kind == "IFTcr" else 0))]
    return []


CASE_RULES = {}     # kind -> (hyps, term) -> list of (condition, value)


def index_constants(hyps):
    out = {}
    for h in hyps.items:
        if not sym(h):
            continue
        stack, seen = [h], set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen or t.get_id() in FN:
                continue
            seen.add(t.get_id())
            if z3.is_const(t) and t.sort() == IS and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[str(t)] = t
            stack += t.children()
    return list(out.values())


def merge_fns(hyps, ts, depth):
    """maps functional constants in ring terms ts to representatives (proved equal)"""
    s = Sat()
    for t in ts:
        s.scan(t)
    fs = list(s.fns.values())
    m = {}
    reps = []
    for f in fs:
        for r in reps:
            if shape(r) == shape(f) and same_fn(hyps, f, r, depth):
                m[f.const.get_id()] = r.const
                break
        else:
            reps.append(f)
    rw = {}
    for f in reps:
        if f.kind in CASE_RULES:
            for c, v in CASE_RULES[f.kind](hyps, f):
                if entails(hyps, c):
                    rw[f.const.get_id()] = v
                    break
            continue
        for e in inverse_rules(hyps, f, s, depth):
            # (cond -> const = x): usable as rewriting when the condition holds
            c, eqn = (True, e) if not (z3.is_or(e)) else (z3.Not(e.arg(0)), e.arg(1))
            if z3.is_or(e):
                eqn = [q for q in e.children() if z3.is_eq(q)][-1]
                c = s_not(s_or(*[q for q in e.children() if not q.eq(eqn)]))
            if entails(hyps, c):
                rw[f.const.get_id()] = eqn.arg(1) if eqn.arg(0).eq(f.const) else eqn.arg(0)
    return m, rw


def replace_consts(t, m):
    if not m or not sym(t):
        return t
    pairs = [(FN[k].const, v) for k, v in m.items()]
    return z3.substitute(t, *[(a, _as(b, a.sort())) for a, b in pairs])


def eq_prove(hyps, a, b, depth, ms):
    if req(a, b):
        count("ring")
        return True
    if a.sort() == IS and b.sort() == IS:
        return smt(hyps, a == b, depth, ms)
    if depth <= 3 and all(real_conditions(t) for t in (a, b)):
        a, b = T(settled_sums(hyps, a)), T(settled_sums(hyps, b))
        # conditions over sums: the two sides may name equal sums differently
        m, _ = merge_fns(hyps, [a, b], depth)
        if m:
            for _ in range(4):
                a, b = replace_consts(a, m), replace_consts(b, m)
            a, b = T(renorm(a, {})), T(renorm(b, {}))
            if req(a, b):
                count("ring+extensionality")
                return True
    cs = cases(hyps, [a, b])
    if cs is None:
        return smt(hyps, a == b, depth, ms)
    for h, (x, y) in cs:
        if not leaf_eq(h, x, y, depth, ms):
            if LOG:
                print("   leaf fails:", str(simp(x))[:300], "=?=", str(simp(y))[:300])
            return False
    return True


def real_conditions(t):
    """is there a case distinction on a real quantity that involves sums or the like?"""
    cs = []
    ite_conds(t, cs, set())
    for c in cs:
        stack, seen = bool_atoms(c, []), set()
        while stack:
            u = stack.pop()
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if u.get_id() in FN and u.sort() == RS:
                return True
            stack += u.children()
    return False


def renorm(t, memo):
    """comparisons and elementary functions brought to their normal form again"""
    if not sym(t):
        return t
    k = t.get_id()
    if k in memo:
        return memo[k]
    if k in FN or not z3.is_app(t) or not t.num_args():
        return t
    ch = [renorm(c, memo) for c in t.children()]
    d = t.decl()
    if d.kind() == z3.Z3_OP_UNINTERPRETED and str(d.name()) == "SQRT":
        r = T_.u_sqrt(ch[0])
    elif d.kind() == z3.Z3_OP_UNINTERPRETED and str(d.name()) in T_.ELEM_BUILD:
        r = T_.ELEM_BUILD[str(d.name())](*[conc(c) if sym(c) else c for c in ch])
    elif z3.is_le(t) and t.arg(0).sort() == RS:
        u = s_sub(ch[1], ch[0])
        r = s_cmp("<=", 0, T_.unscaled(R(u)) if sym(u) else u)
    elif z3.is_app_of(t, z3.Z3_OP_ITE):
        r = s_ite(ch[0], _as(ch[1], t.sort()), _as(ch[2], t.sort()))
    else:
        ch = [_as(c, o.sort()) for c, o in zip(ch, t.children())]
        r = d(*ch)
    if sym(r):
        keep(r)
    memo[k] = r
    return r


def leaf_eq(h, x, y, depth, ms):
    if not sym(x) and not sym(y):
        return x == y or entails_false(h)
    if req(x, y):
        count("ring")
        return True
    if entails(h, s_eq(x, y)):
        count("z3")
        return True
    if depth <= 3:
        m, rw = merge_fns(h, [x, y], depth)
        m.update(rw)
        if m:
            x2, y2 = replace_consts(x, m), replace_consts(y, m)
            for _ in range(3):
                x2, y2 = replace_consts(x2, m), replace_consts(y2, m)
            if req(x2, y2):
                count("ring+extensionality")
                return True
            if rw:
                if prove(h, s_eq(x2, y2), depth + 1):
                    return True
        if combine(h, x, y, depth):
            count("ring+linearity")
            return True
    # is this case possible at all?
    if entails_false(h):
        return True
    z = cross(h, x, y)
    if z is not None:
        return smt(h, z == 0, depth, ms)
    return smt(h, R(x) == R(y), depth, ms)


def cross(h, x, y):
    """a polynomial that vanishes only if x = y: both sides times their denominators (proved nonzero), common factors cancelled"""
    try:
        n1, d1 = ratio(R(x))
        n2, d2 = ratio(R(y))
    except Unsupported:
        return None
    one = T_.p_const(1)
    if d1 == one and d2 == one:
        return None
    for d in (d1, d2):
        if d == one:
            continue
        ats = [(k, 1) for m in d for k, _ in m] if len(d) == 1 else None
        if ats is not None:
            if not all(entails(h, s_not(s_eq(ATOM[k], 0))) for k, _ in ats):
                return None
        elif not entails(h, s_not(s_eq(p_term(d), 0))):
            return None
    if len(d1) == 1 and len(d2) == 1:
        # only the factors the two denominators do not share
        (m1, c1), = d1.items()
        (m2, c2), = d2.items()
        g = {k: min(e, dict(m2).get(k, 0)) for k, e in m1}
        cm = tuple((k, -e) for k, e in g.items() if e)
        d1, d2 = {T_.m_mul(m1, cm): c1}, {T_.m_mul(m2, cm): c2}
    n = p_add(p_mul(n1, d2), p_mul(n2, d1), -1)
    if not n:
        return None
    common = None
    for m in n:
        dm = dict(m)
        common = dm if common is None else {k: min(e, dm[k]) for k, e in common.items() if k in dm}
    if common:
        cm = tuple((k, -e) for k, e in common.items())
        n = {T_.m_mul(m, cm): v for m, v in n.items()}
    return keep(p_term(n))


def combine(h, x, y, depth):
    """sum of c_k L(f_k) = 0 from sum of c_k f_k = 0 pointwise, for linear functionals L over the same domain"""
    try:
        n1, d1 = ratio(R(x))
        n2, d2 = ratio(R(y))
        n = p_add(p_mul(n1, d2), p_mul(n2, d1), -1)
    except Unsupported:
        return False
    groups = {}
    rest = {}
    for m, c in n.items():
        lin = [(k, e) for k, e in m if k in FN and FN[k].kind in LINEAR]
        if not lin:
            rest[m] = c
            continue
        if len(lin) != 1 or lin[0][1] != 1:
            return False
        f = FN[lin[0][0]]
        others = tuple(q for q in m if q[0] != lin[0][0])
        gk = (f.kind, tuple(T_.vkey(s) for s in f.scal))
        groups.setdefault(gk, []).append((f, {others: c}))
    if not groups:
        return False
    if rest:
        # constants: n * c = SUM(n, c)
        sums = [k for k in groups if k[0] == "SUM"]
        if len(groups) != 1 or not sums:
            return False
        f0 = groups[sums[0]][0][0]
        nn = f0.scal[0]
        if not sym(nn):
            return False
        for m, c in list(rest.items()):
            d = dict(m)
            if z3.is_const(nn) and d.get(nn.get_id(), 0) >= 1:
                d[nn.get_id()] -= 1
                if d[nn.get_id()] == 0:
                    d.pop(nn.get_id())
                one = functional("SUM", (nn,), [((nn,), lambda i: z3.RealVal(1))], RS)
                groups[sums[0]].append((FN[one.get_id()], {tuple(sorted(d.items())): c}))
            else:
                return False
    # a coefficient factor common to the whole group does not matter; prove each group is zero pointwise
    for gk, ents in groups.items():
        f0 = ents[0][0]
        i = fresh("e")
        nn = domain(f0, 0)
        hh = h.plus(i >= 0)
        if nn is not None:
            hh = hh.plus(s_cmp("<", i, nn))
        for q in range(len(f0.clos)):
            tot = 0
            for f, co in ents:
                tot = s_add(tot, s_mul(conc(p_term(co)), f.clos[q][1](i)))
            if not prove(hh, s_eq(tot, 0) if sym(tot) else tot == 0, depth + 1):
                return False
    return True
