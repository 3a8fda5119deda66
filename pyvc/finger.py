"""Numerical refutation of an equality between two pure expressions before a solver is asked: a shortcut that can only make
the prover give up earlier (an equality is never accepted here)."""
import math
import random

import z3

import terms as T_
from terms import FN, IS, RS, Cx, sym

ELEM = {"SQRT": lambda x: math.sqrt(abs(x)), "EXP": lambda x: math.exp(min(x, 50)), "LOG": lambda x: math.log(abs(x) + 1e-300),
        "SIN": math.sin, "COS": math.cos, "TANH": math.tanh, "POW": lambda a, b: abs(a) ** min(b, 50), "RND": lambda x: round(x)}


# functionals with a meaning of their own; any other is an unknown function of its arguments
KNOWN = {"SUM", "CNT", "NTH", "FIRST", "LAST", "ARGMAX", "ARGMAXP", "ALL", "ANY", "PERM", "INVP", "SIMP", "MOM", "FFTr", "FFTi", "FFTcr", "FFTci",
         "IFTr", "IFTi", "IFTcr", "IFTci", "CUMPROD", "PROD"}


class No(Exception):
    """not decided here"""


def rnd(*key):
    return random.Random(repr(key)).uniform(0.3, 2.1)


def ev(t, env, memo):
    if not sym(t):
        return float(t) if not isinstance(t, bool) else t
    k = t.get_id()
    if k in memo:
        return memo[k]
    r = memo[k] = ev_(t, env, memo)
    return r


def ev_(t, env, memo):
    k = t.get_id()
    if k in FN:
        f = FN[k]
        if f.kind in KNOWN or len(f.clos) and any(len(d) != 1 for d, _ in f.clos):
            return rnd("fn", k, env[None])
        sc = [ev(x, env, memo) for x in f.scal]
        vs = []
        for _d, fn in f.clos:
            for q in (1, 3):
                v = fn(q)
                for x in ((v.re, v.im) if isinstance(v, Cx) else (v,)):
                    vs.append(ev(x, env, memo))
        return rnd(f.kind, env[None], *["%.6g" % x for x in sc + vs])
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return t.numerator_as_long() / t.denominator_as_long()
    d = t.decl()
    kind = d.kind()
    if kind == z3.Z3_OP_TRUE:
        return True
    if kind == z3.Z3_OP_FALSE:
        return False
    if kind == z3.Z3_OP_UNINTERPRETED:
        nm = str(d.name())
        if not t.num_args():
            if nm == "PI":
                return math.pi
            if nm in env:
                return env[nm]
            if t.sort() == RS:
                return rnd(nm, env[None])
            raise No
        a = [ev(c, env, memo) for c in t.children()]
        if nm in ELEM:
            try:
                return ELEM[nm](*a)
            except (OverflowError, ValueError, ZeroDivisionError):
                raise No
        if t.sort() == RS:
            return rnd(nm, env[None], *["%.7g" % x for x in a])
        raise No
    if kind == z3.Z3_OP_ITE:
        return ev(t.arg(1) if ev(t.arg(0), env, memo) else t.arg(2), env, memo)
    a = [ev(c, env, memo) for c in t.children()]
    if kind == z3.Z3_OP_ADD:
        return sum(a)
    if kind == z3.Z3_OP_MUL:
        return math.prod(a)
    if kind == z3.Z3_OP_SUB:
        return a[0] - sum(a[1:])
    if kind == z3.Z3_OP_UMINUS:
        return -a[0]
    if kind == z3.Z3_OP_DIV:
        if a[1] == 0:
            raise No
        return a[0] / a[1]
    if kind == z3.Z3_OP_IDIV:
        if a[1] == 0:
            raise No
        return a[0] // a[1] if a[1] > 0 else -(a[0] // -a[1])
    if kind == z3.Z3_OP_MOD:
        if a[1] == 0:
            raise No
        return a[0] % abs(a[1])
    if kind == z3.Z3_OP_TO_REAL:
        return a[0]
    if kind == z3.Z3_OP_TO_INT:
        return math.floor(a[0])
    if kind == z3.Z3_OP_POWER:
        return a[0] ** a[1]
    if kind == z3.Z3_OP_LE:
        return a[0] <= a[1]
    if kind == z3.Z3_OP_GE:
        return a[0] >= a[1]
    if kind == z3.Z3_OP_LT:
        return a[0] < a[1]
    if kind == z3.Z3_OP_GT:
        return a[0] > a[1]
    if kind == z3.Z3_OP_EQ:
        return a[0] == a[1]
    if kind == z3.Z3_OP_NOT:
        return not a[0]
    if kind == z3.Z3_OP_AND:
        return all(a)
    if kind == z3.Z3_OP_OR:
        return any(a)
    if kind == z3.Z3_OP_IMPLIES:
        return not a[0] or a[1]
    raise No


def look(t, out, seen):
    """functionals, integer constants and conditions of a term; No if something beyond index conditions decides its value"""
    stack = [t]
    while stack:
        t = stack.pop()
        if not sym(t) or t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.get_id() in FN:
            f = FN[t.get_id()]
            if t.sort() != RS:
                raise No
            if f.kind in KNOWN or len(f.clos) and any(len(d) != 1 for d, _ in f.clos):
                out["fn"].add(t.get_id())
                continue
            stack += [x for x in f.scal if sym(x)]
            for _d, fn in f.clos:
                v = fn(z3.Int("fp!i"))
                stack += [x for x in ((v.re, v.im) if isinstance(v, Cx) else (v,)) if sym(x)]
            continue
        if z3.is_bool(t):
            if (z3.is_le(t) or z3.is_ge(t) or z3.is_lt(t) or z3.is_gt(t) or z3.is_eq(t)):
                if t.arg(0).sort() != IS:
                    raise No
            elif t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED or z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                raise No
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if t.num_args() == 0 and t.sort() == IS:
                out["int"].add(str(t.decl().name()))
            elif t.num_args() and t.sort() != RS:
                raise No
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_INT:
            raise No
        stack += t.children()


_hy = {}


def ground(hyps):
    """(usable integer assumptions, names under equations of reals)"""
    r = _hy.get(hyps.key)
    if r is not None:
        return r
    ints, eqs = [], set()
    for h in hyps.items:
        if sym(h):
            out = {"fn": set(), "int": set()}
            try:
                look(h, out, set())
                if not out["fn"] and "ToInt" not in str(h):
                    ints.append((h, out["int"]))
                    continue
            except No:
                pass
            if has_eq(h, set()):
                eqs |= set(T_.deps(h)) | {"*"}
        else:
            try:
                b = h.fn(z3.Int("fp!i"))
            except Exception:
                eqs.add("*all")
                continue
            if has_eq(b, set()):
                eqs |= set(T_.deps(b)) if sym(b) else set()
    r = _hy[hyps.key] = (ints, eqs)
    _hy[("keep", hyps.key)] = hyps
    return r


def has_eq(t, seen):
    stack = [t]
    while stack:
        t = stack.pop()
        if isinstance(t, Cx):
            return True
        if not sym(t) or t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_eq(t):
            return True
        stack += t.children()
    return False


def differ(hyps, a, b, tries=150):
    """are the real terms a and b certainly different somewhere under the assumptions? (False: not decided)"""
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = T_.cx(a), T_.cx(b)
        return differ(hyps, a.re, b.re, tries) or differ(hyps, a.im, b.im, tries)
    for x in (a, b):
        if sym(x) and x.sort() != RS:
            return False
    try:
        oa, ob = {"fn": set(), "int": set()}, {"fn": set(), "int": set()}
        look(a, oa, set()), look(b, ob, set())
        if oa["fn"] != ob["fn"]:
            return False
        ints, eqs = ground(hyps)
        if "*all" in eqs:
            return False
        ds = (set(T_.deps(a)) if sym(a) else set()) | (set(T_.deps(b)) if sym(b) else set())
        if ds & eqs:
            return False
        names = oa["int"] | ob["int"]
        used = set(names)
        while True:
            more = set().union(*[q for _h, q in ints if q & used] or [set()]) - used
            if not more:
                break
            used |= more
        hs = [h for h, q in ints if q & used]
        rng = random.Random(7)
        good = 0
        for k in range(tries):
            env = {nm: rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11)) for nm in sorted(used)}
            env[None] = k
            memo = {}
            if not all(ev(h, env, memo) for h in hs):
                continue
            x, y = ev(a, env, memo), ev(b, env, memo)
            if not (math.isfinite(x) and math.isfinite(y)):
                continue
            if abs(x - y) > 1e-5 * (abs(x) + abs(y)) + 1e-9:
                return True
            good += 1
            if good >= 3:
                return False
        return False
    except (No, OverflowError, ZeroDivisionError, TypeError):
        return False
