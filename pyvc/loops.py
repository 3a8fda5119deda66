"""Loops with a symbolic number of iterations.

The body is executed once, at an arbitrary iteration k from an arbitrary state of the locations it modifies.
From that one iteration a loop invariant in closed form is derived per modified location
(counter, running sum, last value, conditional append, array store, running maximum, boolean flag); the
invariants are then verified: initialisation, and preservation by the body under the invariant.
A location for which no invariant is found becomes unknown: using it afterwards is unsupported.
"""
import ast

import z3

import solve as S
import terms as T_
from interp import (Arr, BreakSig, Buf, ContinueSig, Frame, Inst, PDict, PList, PathDead, Path, Poison, PyRaise, ReturnSig, SymList, isscal)
from solve import ANY, CNT, FIRST, LAST, NTH, SUM, Hyps, entails, fresh
from terms import (B, Cx, I, R, RS, IS, T, Unsupported, conc, cx, deps, dsubst, isbool, isinf, isint, keep, num, ratio, req, s_add, s_and, s_cmp, s_eq,
                   s_ite, s_mul, s_neg, s_not, s_or, s_sub, simp, sym, vkey)

BOOL = z3.BoolSort()
MISSING = ("missing",)


class Gave(Exception):
    """no closed form for this location"""


# ----------------------------------------------------------------------------- locations
def fields(o):
    """field -> value of a heap object"""
    if isinstance(o, Frame):
        return dict(o.vars)
    if isinstance(o, Inst):
        return dict(o.attrs)
    if isinstance(o, PDict):
        return dict(o.d)
    if isinstance(o, PList):
        return {"items": tuple(o.items)}
    if isinstance(o, SymList):
        return {"arr": o.arr}
    if isinstance(o, Buf):
        return {"fn": (o.fn, o.shape, o.sel, o.tag)}
    return {"state": o.state()}


def same(a, b):
    if a is b:
        return True
    if isscal(a) and isscal(b):
        if isinstance(a, bool) != isinstance(b, bool) and not sym(a) and not sym(b):
            return False
        if isinstance(a, float) or isinstance(b, float):
            return isinstance(a, float) and isinstance(b, float) and repr(a) == repr(b)
        return vkey(a) == vkey(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Arr):
        return a.buf is b.buf and a.fwd is b.fwd and all(same(x, y) for x, y in zip(a.shape, b.shape)) and len(a.shape) == len(b.shape)
    try:
        return not isinstance(a, (PList, PDict, Inst, Buf)) and bool(a == b)
    except Exception:
        return False


class Cap:
    """post state of one path through the body"""

    def __init__(self, sig, val, post, pc, lists):
        self.sig, self.val, self.post, self.pc, self.lists = sig, val, post, pc, lists


class ArrVal:
    """pure snapshot of an array value"""

    def __init__(self, a, known):
        self.shape, self.fn, self.dtype = a.shape, a.content(), a.dtype
        self.tag = a.buf.tag if a.fwd is None else None
        self.sel = a.sel
        self.alias = a if id(a.buf) in known else None


def leaves(t, cond=True, out=None, lim=64):
    """(condition, leaf) pairs of the top-level ite tree of a scalar"""
    if out is None:
        out = []
    if sym(t) and t.get_id() not in T_.FN and z3.is_app_of(t, z3.Z3_OP_ITE):
        c = t.arg(0)
        leaves(conc(t.arg(1)), s_and(cond, c), out, lim)
        leaves(conc(t.arg(2)), s_and(cond, s_not(c)), out, lim)
        return out
    if sym(t) and t.sort() == BOOL and (z3.is_or(t) or z3.is_and(t)) and False:
        pass
    out.append((cond, t))
    if len(out) > lim:
        raise Gave("too many cases")
    return out


def lift_ites(t, depth=0):
    """moves ites in arithmetic operands to the top (few of them only)"""
    cs = []
    S.ite_conds(t, cs, set(), 6)
    if not cs or not sym(t) or depth > 5:
        return t
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return s_ite(t.arg(0), lift_ites(conc(t.arg(1)), depth + 1), lift_ites(conc(t.arg(2)), depth + 1))
    c = cs[0]
    a = S.subst_conds(t, {c.get_id(): True}, {})
    b = S.subst_conds(t, {c.get_id(): False}, {})
    return s_ite(c, lift_ites(a, depth + 1), lift_ites(b, depth + 1))


def isbooltree(t):
    return sym(t) and t.sort() == BOOL


class Loop:
    def __init__(self, it, stmt, fr, label):
        self.it, self.stmt, self.fr, self.label = it, stmt, fr, label
        it.loopno += 1
        self.no = it.loopno

    def const(self, nm, sort):
        key = (id(self.stmt), self.no, nm, str(sort))
        r = self.it.loopconst.get(key)
        if r is None:
            r = fresh(nm, sort)
            self.it.loopconst[key] = r
        return r

    def uf(self, nm, sort, dims):
        key = (id(self.stmt), self.no, nm, str(sort), dims, "uf")
        r = self.it.loopconst.get(key)
        if r is None:
            S._fresh[0] += 1
            name = "%s~%d" % (nm, S._fresh[0])
            r = (name, T_.mk_array(name, sort, dims))
            self.it.loopconst[key] = r
        return r

    # ------------------------------------------------------------------ one arbitrary iteration
    def iteration(self, body, hyps):
        """explores body() from the havocked state; body runs one iteration"""
        it = self.it
        heap0 = list(it.heap)
        self.heap0 = heap0
        known = {id(o) for o in heap0 if isinstance(o, Buf)}
        pre = {(id(o), f): (o, v) for o in heap0 for f, v in fields(o).items()}
        H = {}           # (id(o), field) -> representation
        kinds = {}       # widened kinds
        for _round in range(12):
            reps = {}

            def run():
                pc0 = it.pc
                it.pc = []
                try:
                    for key in sorted(H, key=lambda q: H[q]):
                        self.havoc(key, pre, kinds, reps)
                    start = {(id(o), f): v for o in heap0 for f, v in fields(o).items()}
                    sig, val = "normal", None
                    try:
                        body()
                    except ContinueSig:
                        pass
                    except BreakSig:
                        sig = "break"
                    except ReturnSig as e:
                        sig, val = "return", e.value
                    except PyRaise as e:
                        sig, val = "raise", e
                    post = {}
                    mod = set()
                    for o in heap0:
                        fs = fields(o)
                        for f, v in fs.items():
                            key = (id(o), f)
                            if not same(start.get(key, MISSING), v):
                                mod.add((key, o))
                            if isinstance(v, Arr):
                                v = ArrVal(v, known)
                            post[key] = v
                        for key, v in start.items():
                            if key[0] == id(o) and key[1] not in fs:
                                mod.add((key, o))
                                post[key] = MISSING
                    lists = {key: ArrVal(r[2].arr, known) for key, r in reps.items() if r[0] == "l" and len(r) > 2}
                    return Cap(sig, val, post, list(it.pc), lists), mod
                finally:
                    it.pc = pc0
            save = it.hyps, it.ctx
            it.hyps = hyps
            it.ctx = it.ctx + ((id(self.stmt), self.no, _round),)
            nobl = len(it.obls)
            try:
                paths = it.explore(run)
            finally:
                it.hyps, it.ctx = save
            new = False
            for p in paths:
                cap, mod = p.value
                if cap.sig in ("raise", "return") and False:
                    continue
                for key, o in mod:
                    if key not in H:
                        H[key] = len(H)
                        if key not in pre:
                            pre[key] = (o, MISSING)
                        new = True
            # widening
            for p in paths:
                cap, _ = p.value
                for key in list(H):
                    rep = reps.get(key)
                    if rep and rep[0] == "s":
                        v = cap.post.get(key, MISSING)
                        w = self.kind_of(v)
                        if w and w != kinds.get(key) and self.rank(w) > self.rank(kinds.get(key)):
                            kinds[key] = w
                            new = True
            if not new:
                self.H, self.reps, self.pre, self.kinds = H, reps, pre, kinds
                self.paths = [(p.hyps, p.value[0]) for p in paths]
                self.bodyobls = it.obls[nobl:]
                del it.obls[nobl:]
                return
            del it.obls[nobl:]
        raise Unsupported("loop state does not stabilise")

    # ------------------------------------------------------------------ results for re-executed paths
    def store(self):
        return [((self.order(key), key[1]), self.V.get(key), self.why.get(key)) for key in self.H], self.E

    def recall(self, c):
        it = self.it
        self.heap0 = list(it.heap)
        self.H, self.V, self.why, self.pre = {}, {}, {}, {}
        for (q, f), v, w in c[0]:
            o = self.heap0[q]
            key = (id(o), f)
            self.H[key] = len(self.H)
            self.V[key], self.why[key] = v, w
            self.pre[key] = (o, fields(o).get(f, MISSING))
        self.E = c[1]

    def rank(self, k):
        return {None: -1, "b": 0, "i": 1, "f": 2, "c": 3}.get(k, 9)

    def kind_of(self, v):
        if isinstance(v, bool) or isbool(v):
            return "b"
        if isinstance(v, Cx):
            return "c"
        if isinstance(v, float):
            return None
        if isscal(v):
            return "i" if isint(v) else "f"
        return None

    def havoc(self, key, pre, kinds, reps):
        """sets one modified location to an arbitrary value"""
        it = self.it
        o, v = pre[key]
        f = key[1]
        nm = "%s" % (f if isinstance(f, str) else "loc")
        if isinstance(o, Buf):
            fnv, shape, sel, tag = v
            d = o.dtype
            dims = len(shape)
            if d == "c":
                n1, a = self.uf("H%dr" % self.order(key), RS, dims)
                n2, b = self.uf("H%di" % self.order(key), RS, dims)
                o.fn = T_.memo_clos(lambda *ix: Cx(a(*ix), b(*ix)))
                reps[key] = ("a", (n1, n2))
            elif d in "fib":
                n1, a = self.uf("H%d" % self.order(key), {"f": RS, "i": IS, "b": BOOL}[d], dims)
                o.fn = a
                reps[key] = ("a", (n1,))
            else:
                raise Unsupported("array of objects modified in a loop")
            o.sel = None
            if tag is not None:
                raise Unsupported("list under construction modified in place")
            return
        if isinstance(o, PList):
            if o.items and not all(isscal(x) for x in o.items):
                raise Unsupported("list of objects modified in a loop")
            base = it.lib.asarr(PList(list(v)))
            sl = SymList(self.havarr(key, "l", base.dtype if v else "f", reps))
            reps[key] = ("l", reps[key][1], sl, o)
            self.rebind(o, sl)
            return
        if isinstance(o, SymList):
            if f != "arr" or v.ndim != 1:
                raise Unsupported("list modified in a loop")
            o.arr = self.havarr(key, "l", v.dtype, reps)
            return
        if not isinstance(o, (Frame, Inst, PDict)):
            raise Unsupported("random state modified in a loop")
        if isinstance(v, Arr) and v.ndim == 1 or isinstance(v, Arr) and v.ndim == 2 and all(not sym(d) and d == 0 for d in v.shape):
            val = self.havarr(key, nm, v.dtype, reps)
        elif isscal(v) and not isinstance(v, float):
            k = kinds.get(key) or self.kind_of(v)
            kinds[key] = k
            if k == "c":
                r, i = self.const(nm + "r", RS), self.const(nm + "i", RS)
                val = Cx(r, i)
            else:
                val = self.const(nm, {"b": BOOL, "i": IS, "f": RS}[k])
            reps[key] = ("s", val)
        else:
            val = Poison("changed in the loop at line %d" % self.stmt.lineno)
            reps[key] = ("p",)
        self.setloc(o, f, val)

    def order(self, key):
        return self.heap_index(key[0])

    def heap_index(self, i):
        for q, o in enumerate(self.heap0):
            if id(o) == i:
                return q
        return 0

    def setloc(self, o, f, val):
        if isinstance(o, Frame):
            d = o.vars
        elif isinstance(o, Inst):
            d = o.attrs
        else:
            d = o.d
        if val is MISSING:
            d.pop(f, None)
        else:
            d[f] = val

    def havarr(self, key, nm, dtype, reps):
        it = self.it
        m = self.const("len" + nm, IS)
        it.assume(m >= 0)
        d = dtype if dtype in "fibc" else "f"
        if d == "c":
            n1, a = self.uf("A%sr" % nm, RS, 1)
            n2, b = self.uf("A%si" % nm, RS, 1)
            fn = lambda i: Cx(a(i), b(i))
            names = (n1, n2)
        else:
            n1, a = self.uf("A" + nm, {"f": RS, "i": IS, "b": BOOL}[d], 1)
            fn = a
            names = (n1,)
        r = it.new_arr((m,), fn, d)
        r.buf.tag = ("hav", key)
        reps[key] = ("l", (m, names))
        return r

    def rebind(self, old, new):
        """replaces references to a list object"""
        for o in self.it.heap:
            if isinstance(o, Frame):
                for q, v in o.vars.items():
                    if v is old:
                        o.vars[q] = new
            elif isinstance(o, Inst):
                for q, v in o.attrs.items():
                    if v is old:
                        o.attrs[q] = new

    # ------------------------------------------------------------------ closed forms
    def solve(self, k, n):
        """closed forms: self.V[key] = function of the iteration index -> value"""
        it = self.it
        self.k = k
        kn = str(k.decl().name())
        cont = [c for _h, c in self.paths if c.sig == "normal"]
        exits = [(h, c) for h, c in self.paths if c.sig != "normal"]
        self.cont, self.exits = cont, exits
        self.V = {}          # key -> closed form (see apply)
        self.cmap, self.fmap = {}, {}   # closed forms of the havocked symbols at iteration k
        self.why = {}
        self.E = None
        if not cont:
            # every path leaves the loop in its first iteration
            raise Gave("the loop never reaches a second iteration")
        self.cpc = [s_and(*c.pc) for c in cont]
        self.epc = s_or(*[s_and(*c.pc) for _h, c in exits])
        todo = [key for key in self.H]
        progress = True
        while todo and progress:
            progress = False
            for key in list(todo):
                try:
                    v = self.closed(key)
                except Gave as e:
                    self.why[key] = str(e)
                    continue
                self.V[key] = v
                self.register(key, v)
                todo.remove(key)
                progress = True
        for key in todo:
            self.V[key] = None
        if exits:
            e = self.sub(self.epc)
            self.need_closed(e)
            self.E = T_.memo_clos(lambda j: self.at(e, j))

    def ranges(self, k):
        """candidate invariants: an integer that starts at pre and is only ever set to w(k) >= pre, w increasing, lies between pre and w(k-1)"""
        out = []
        self.k = k
        own = set().union(*[self.syms(key) for key in self.H]) if self.H else set()
        for key in self.H:
            rep = self.reps.get(key)
            pre = self.pre[key][1]
            if rep is None or rep[0] != "s" or isinstance(rep[1], Cx) or not isint(rep[1]) or not isscal(pre) or not isint(pre):
                continue
            ws = {}
            for _h, c in self.paths:
                v = c.post.get(key, MISSING)
                if c.sig == "normal" and isscal(v):
                    for _c, w in leaves(v):
                        if not (sym(w) and w.eq(rep[1])):
                            ws[vkey(w)] = w
            if len(ws) != 1:
                continue
            w = list(ws.values())[0]
            if not sym(w) or deps(w) & own or not isint(w):
                continue
            top = s_ite(s_cmp("<=", k, 0), pre, self.at(w, s_sub(k, 1)))
            if entails(self.hk, s_cmp("<=", pre, top)):
                out.append((key, s_and(s_cmp("<=", pre, rep[1]), s_cmp("<=", rep[1], top)), pre, w))
        return out

    def verify_ranges(self, cands):
        for key, _x, lo, w in cands:
            for h, c in self.paths:
                if c.sig == "normal":
                    v = c.post[key]
                    if not isscal(v):
                        raise Gave("range")
                    self.oblige("%s line %d: range of %s preserved" % (self.label, self.stmt.lineno, key[1]), h, s_and(s_cmp("<=", lo, v), s_cmp("<=", v, w)))

    def syms(self, key):
        """names of the symbols that stand for the state of a location before the iteration"""
        r = self.reps.get(key)
        if r is None or r[0] == "p":
            return set()
        if r[0] == "s":
            return {str(x.decl().name()) for x in ((r[1].re, r[1].im) if isinstance(r[1], Cx) else (r[1],))}
        if r[0] == "a":
            return set(r[1])
        return {str(r[1][0].decl().name())} | set(r[1][1])

    def unsolved(self, minus=()):
        out = set()
        for key in self.H:
            if key not in self.V and key not in minus:
                out |= self.syms(key)
        return out

    def open_syms(self):
        out = set()
        for key in self.H:
            if self.V.get(key) is None:
                out |= self.syms(key)
        return out

    def need_closed(self, t, minus=()):
        bad = deps(t) & (self.open_syms() - set().union(*[self.syms(m) for m in minus]) if minus else self.open_syms())
        if bad:
            raise Gave("depends on %s" % ", ".join(sorted(bad)))

    def sub(self, t):
        """replaces solved symbols by their closed forms (at iteration k)"""
        return dsubst(t, self.cmap, self.fmap) if self.cmap or self.fmap else t

    def at(self, t, j):
        return dsubst(t, {str(self.k.decl().name()): j})

    def merged(self, get):
        """value merged over the continuing paths"""
        vals = [get(c) for c in self.cont]
        r = vals[-1]
        for pc, v in zip(reversed(self.cpc[:-1]), reversed(vals[:-1])):
            r = self.ite(pc, v, r)
        return r

    def ite(self, c, a, b):
        if isscal(a) and isscal(b):
            return s_ite(c, a, b)
        raise Gave("values of different kinds")

    def closed(self, key):
        o, pre = self.pre[key]
        rep = self.reps.get(key)
        posts = [c.post.get(key, MISSING) for c in self.cont]
        if isinstance(o, Buf):
            return self.closed_array(key, o, pre, posts)
        if rep is not None and rep[0] == "l":
            return self.closed_append(key, o, pre, posts, rep)
        if rep is not None and rep[0] == "s":
            return self.closed_scalar(key, pre, posts, rep)
        return self.closed_last(key, pre, posts)

    # -- scalars
    def closed_scalar(self, key, pre, posts, rep):
        if not all(isscal(p) and not isinstance(p, float) for p in posts):
            raise Gave("not a number on every path")
        P = self.sub(self.merged(lambda c: c.post[key]))
        if isinstance(rep[1], Cx):
            P, q = cx(P), cx(pre)
            self.need_closed(P, (key,))
            a = self.scalar1(rep[1].re, P.re, q.re, other=str(rep[1].im.decl().name()))
            b = self.scalar1(rep[1].im, P.im, q.im, other=str(rep[1].re.decl().name()))
            return ("s", lambda j: Cx(a(j), b(j)))
        self.need_closed(P, (key,))
        a = self.scalar1(rep[1], P, pre)
        return ("s", a)

    def scalar1(self, sig, P, pre, other=None):
        nm = str(sig.decl().name())
        if other and other in deps(P):
            raise Gave("coupled complex recurrence")
        if isbooltree(sig):
            return self.boolean(sig, P, pre)
        if not sym(P):
            return self.last([(True, P)], sig, pre)
        lv = leaves(P)
        if isint(sig) and any(nm in deps(c) for c, _v in lv):
            r = self.running_index(sig, P, pre, lv)
            if r is not None:
                return r
        if any(nm in deps(v) and not (sym(v) and v.eq(sig)) for _c, v in lv) or any(nm in deps(c) for c, _v in lv):
            P = lift_ites(P)
            lv = leaves(P)
        if any(nm in deps(c) for c, _v in lv):
            return self.running(sig, P, pre, lv)
        if all(nm not in deps(v) or v.eq(sig) for _c, v in lv if sym(v)):
            return self.last(lv, sig, pre)
        # accumulation
        ds = []
        for c, v in lv:
            if sym(v) and v.eq(sig):
                d = 0
            else:
                d = self.minus(v, sig)
                if nm in deps(d):
                    raise Gave("not an accumulation")
            ds.append((c, d))
        if isint(sig):
            return self.count(ds, pre)
        delta = ds[-1][1]
        for c, d in reversed(ds[:-1]):
            delta = s_ite(c, d, delta)
        return lambda j: s_add(pre, SUM(j, lambda i: self.at(delta, i)))

    def minus(self, v, sig):
        n, d = ratio(R(v) if not isint(v) else v)
        if d != T_.p_const(1):
            n = None
        if n is not None:
            m = ((sig.get_id(), 1),)
            if n.get(m) != 1:
                raise Gave("not an accumulation")
            r = dict(n)
            r.pop(m)
            t = T_.p_term(r) if not isint(sig) else (S.p_int(r) if r else 0)
            return conc(simp(t)) if sym(t) else t
        # sums with denominators: v - sig symbolically
        n, d = ratio(R(v))
        m = ((sig.get_id(), 1),)
        q = T_.p_add(n, T_.p_mul(T_.ratio(sig)[0], d), -1)
        t = keep(T_.p_term(q) / T_.p_term(d))
        return t

    def count(self, ds, pre):
        by = {}
        for c, d in ds:
            if sym(d):
                raise Gave("integer accumulation of a variable step")
            if d != 0:
                by.setdefault(d, []).append(c)
        parts = [(d, s_or(*cs)) for d, cs in by.items()]

        def V(j):
            r = pre
            for d, c in parts:
                r = s_add(r, s_mul(d, CNT(j, lambda i: self.at(c, i)) if sym(c) else (j if c else 0)))
            return r
        return V

    def last(self, lv, sig, pre):
        """last value written under a condition"""
        w = [(c, v) for c, v in lv if not (sym(v) and v.eq(sig))]
        cond = s_or(*[c for c, _v in w])
        cond = simp(cond) if sym(cond) else cond
        if not w:
            return lambda j: pre
        val = w[-1][1]
        for c, v in reversed(w[:-1]):
            val = s_ite(c, v, val)
        if sym(cond) and entails(self.hk, cond):
            cond = True
        if pre is MISSING:
            if cond is True:
                return lambda j: self.at(val, s_sub(j, 1))
            raise Gave("possibly unbound")
        if cond is True:
            return lambda j: s_ite(s_cmp("<=", j, 0), pre, self.at(val, s_sub(j, 1)))

        def V(j):
            L = LAST(j, lambda i: self.at(cond, i))
            return s_ite(s_cmp("<", L, 0), pre, self.at(val, L))
        return V

    def boolean(self, sig, P, pre):
        nm = str(sig.decl().name())
        # value after the iteration when the flag was True / False before
        a = dsubst(P, {nm: z3.BoolVal(True)}) if sym(P) else P
        b = dsubst(P, {nm: z3.BoolVal(False)}) if sym(P) else P
        a, b = (simp(x) if sym(x) else x for x in (a, b))
        if a is True:
            return lambda j: s_or(pre, ANY(j, lambda i: self.at(b, i))) if b is not False else pre
        if b is False:
            return lambda j: s_and(pre, s_not(ANY(j, lambda i: s_not(self.at(a, i)))))
        if vkey(a) == vkey(b):
            return self.last([(True, a)], sig, pre)
        # kept where a and not b, set where both, cleared where neither
        if not entails(self.hk, s_or(a, s_not(b))):
            raise Gave("toggling flag")
        cond = s_not(s_and(a, s_not(b)))
        return self.last([(cond, b), (s_not(cond), sig)], sig, pre)

    def running(self, sig, P, pre, lv):
        """running maximum / minimum"""
        nm = str(sig.decl().name())
        if len(lv) != 2:
            raise Gave("condition on the accumulator")
        (c1, v1), (c2, v2) = lv
        if sym(v1) and v1.eq(sig):
            w = v2
        elif sym(v2) and v2.eq(sig):
            w = v1
        else:
            raise Gave("condition on the accumulator")
        if nm in deps(w):
            raise Gave("condition on the accumulator")
        x = fresh("mx", RS)
        for s, op in ((1, ">="), (-1, "<=")):
            mx = s_ite(s_cmp(op, w, sig), w, sig)
            if entails(self.hk, s_eq(P, mx)):
                def V(j, s=s):
                    g = lambda i: s_mul(s, s_ite(s_cmp("<=", i, 0), pre, self.at(w, s_sub(i, 1))))
                    g = T_.memo_clos(g)
                    m = S.ARGMAX(s_add(j, 1), g)
                    return s_mul(s, g(m))
                return V
        raise Gave("condition on the accumulator")

    def running_index(self, sig, P, pre, lv):
        """the place of the running maximum / minimum: replaced by w when the value there beats the value at sig"""
        nm, kn = str(sig.decl().name()), str(self.k.decl().name())
        ws = {vkey(v): v for _c, v in lv if not (sym(v) and v.eq(sig))}
        w = list(ws.values())[0] if len(ws) == 1 else None
        if w is None or nm in deps(w):
            return None
        # the value as a function of the place: a term of the condition with sig and without k
        terms = {}
        for c, _v in lv:
            if sym(c):
                for b in T_.subterms(c, lambda t: t.sort() == RS and nm in deps(t) and kn not in deps(t)):
                    terms[b.get_id()] = b
        for b in sorted(terms.values(), key=lambda t: -len(t.sexpr()))[:8]:
            at = T_.memo_clos(lambda i, b=b: dsubst(b, {nm: i}))
            a = at(w)
            for s in (1, -1):
                for op in (">", ">="):
                    if entails(self.hk, s_eq(P, s_ite(s_cmp(op, s_mul(s, a), s_mul(s, b)), w, sig))):
                        idx = lambda t: s_ite(s_cmp("<=", t, 0), pre, self.at(w, s_sub(t, 1)))
                        g = T_.memo_clos(lambda t, s=s: s_mul(s, at(idx(t))))
                        if op == ">":
                            return lambda j: idx(S.ARGMAX(s_add(j, 1), g))
                        return lambda j: idx(s_sub(j, S.ARGMAX(s_add(j, 1), lambda t: g(s_sub(j, t)))))
        return None

    # -- last value of any kind
    def closed_last(self, key, pre, posts):
        if all(isscal(p) and not isinstance(p, float) for p in posts):
            P = self.sub(self.merged(lambda c: c.post[key]))
            self.need_closed(P)
            if isinstance(P, Cx):
                return ("s1", lambda j: Cx(self.at(P.re, s_sub(j, 1)), self.at(P.im, s_sub(j, 1))))
            return ("s1", lambda j: self.at(P, s_sub(j, 1)))
        if all(isinstance(p, ArrVal) for p in posts):
            return self.last_arr(posts)
        if all(same(posts[0], p) for p in posts) and (posts[0] is None or isinstance(posts[0], (str, bool))):
            v = posts[0]
            return ("s1", lambda j: v)
        raise Gave("value of the last iteration")

    def last_arr(self, posts):
        if any(p.alias is not None for p in posts):
            if all(p.alias is not None and same(p.alias, posts[0].alias) for p in posts) and not any(deps(d) & {str(self.k.decl().name())} for d in posts[0].shape) and posts[0].alias.fwd is None:
                a = posts[0].alias
                q = self.heap_index(id(a.buf))
                return ("s1", lambda j: Arr(self.it.heap[q]))
            raise Gave("view of a modified array")
        nd = {len(p.shape) for p in posts}
        if len(nd) != 1:
            raise Gave("arrays of different dimension")
        dt = {p.dtype for p in posts}
        if len(dt) != 1:
            raise Gave("arrays of different type")
        shape = []
        for q in range(nd.pop()):
            r = posts[-1].shape[q]
            for pc, p in zip(reversed(self.cpc[:-1]), reversed(posts[:-1])):
                if vkey(p.shape[q]) != vkey(r):
                    r = s_ite(pc, p.shape[q], r)
            r = self.sub(r)
            self.need_closed(r)
            shape.append(r)
        dtype = dt.pop()
        sel = posts[0].sel if len(posts) == 1 else None
        cpc, sub, at = list(self.cpc), self.sub, self.at
        for pc in cpc:
            self.need_closed(self.sub(pc))
        ix = [fresh("j") for _ in shape]
        t = self.merged_fn(posts, ix)
        self.need_closed(self.sub(t))

        def value(j):
            j1 = s_sub(j, 1)
            fn = T_.memo_clos(lambda *i: at(sub(self.merged_fn(posts, i)), j1))
            sl = None
            if sel is not None:
                n, p, g = sel
                sl = (at(sub(n), j1), T_.memo_clos(lambda i: at(sub(p(i)), j1)), T_.memo_clos(lambda i: at(sub(g(i)), j1)))
            return self.it.new_arr(tuple(at(d, j1) for d in shape), fn, dtype, sl)
        return ("s1", value)

    def merged_fn(self, posts, ix):
        r = posts[-1].fn(*ix)
        for pc, p in zip(reversed(self.cpc[:-1]), reversed(posts[:-1])):
            r = s_ite(pc, p.fn(*ix), r)
        return r

    # -- append
    def closed_append(self, key, o, pre, posts, rep):
        conds, vals = [], []
        if isinstance(o, PList):
            posts = [c.lists[key] for c in self.cont]
            prearr = self.it.lib.asarr(PList(list(pre)))
        else:
            prearr = pre
        known = []
        for pc, p in zip(self.cpc, posts):
            if not isinstance(p, ArrVal) or p.tag is None:
                # rebound to something else
                if isinstance(p, ArrVal) and all(isinstance(q, ArrVal) and q.tag is None for q in posts):
                    return self.last_arr(posts)
                raise Gave("rebound")
            if p.tag[1] != key:
                raise Gave("rebound to another list")
            if p.tag[0] == "hav":
                continue
            if len(p.tag[2]) != 1:
                raise Gave("several values appended in one iteration")
            conds.append(pc)
            vals.append(p.tag[2][0])
        if not conds:
            raise Gave("rebound")
        if not all(isscal(v) for v in vals):
            raise Gave("append of a non-number")
        cond = self.sub(s_or(*conds))
        v = vals[-1]
        for pc, w in zip(reversed(conds[:-1]), reversed(vals[:-1])):
            v = s_ite(pc, w, v)
        v = self.sub(v)
        self.need_closed(cond)
        self.need_closed(v)
        if sym(cond) and entails(self.hk, cond):
            cond = True
        if not sym(cond) and not cond:
            raise Gave("rebound")
        n0 = 0 if prearr.ndim == 2 else prearr.shape[0]
        c0 = prearr.content() if prearr.ndim == 1 else None
        from nplib import promo, sdt
        dt = promo(prearr.dtype if not isinstance(o, PList) or pre else sdt(v), sdt(v))
        at = self.at

        def value(j):
            if cond is True:
                ln, g, sel = j, (lambda i: at(v, i)), None
            else:
                p = T_.memo_clos(lambda i: at(cond, i))
                gg = T_.memo_clos(lambda i: at(v, i))
                ln = CNT(j, p)
                g = lambda r: gg(NTH(r, p))
                sel = (j, p, gg)
            if not sym(n0) and n0 == 0:
                return self.it.new_arr((ln,), g, dt, sel)
            return self.it.new_arr((s_add(n0, ln),), lambda r: s_ite(s_cmp("<", r, n0), c0(r), g(s_sub(r, n0))), dt)
        return ("l", value)

    # -- arrays written in place
    def closed_array(self, key, o, pre, posts):
        prefn, shape, _sel, _tag = pre
        names = set(self.syms(key))
        J = [self.const("j%d" % q, IS) for q in range(len(shape))]
        for p in posts:
            if len(p[1]) != len(shape):
                raise Gave("array changed its shape")
        P = posts[-1][0](*J)
        for pc, p in zip(reversed(self.cpc[:-1]), reversed(posts[:-1])):
            P = s_ite(pc, p[0](*J), P)
        P = self.sub(P)
        hj = self.hk.plus(*[s_and(j >= 0, s_cmp("<", j, d)) for j, d in zip(J, shape)])
        rep = self.reps[key]
        if o.dtype == "c":
            P = cx(P)
            s_re = keep(z3.Function(rep[1][0], *([IS] * len(J) + [RS]))(*J))
            s_im = keep(z3.Function(rep[1][1], *([IS] * len(J) + [RS]))(*J))
            a = self.array1(key, names, J, s_re, P.re, lambda *ix: cx(prefn(*ix)).re, hj)
            b = self.array1(key, names, J, s_im, P.im, lambda *ix: cx(prefn(*ix)).im, hj)
            return ("a", lambda j: T_.memo_clos(lambda *ix: Cx(a(j, ix), b(j, ix))))
        sort = {"f": RS, "i": IS, "b": BOOL}[o.dtype]
        s = keep(z3.Function(rep[1][0], *([IS] * len(J) + [sort]))(*J))
        a = self.array1(key, names, J, s, P, prefn, hj)
        return ("a", lambda j: T_.memo_clos(lambda *ix: a(j, ix)))

    def array1(self, key, names, J, s, P, prefn, hj):
        """value at index J after the iteration: P, before: s"""
        self.need_closed(P, (key,))
        jn = [str(j.decl().name()) for j in J]
        at = lambda t, i, ix: dsubst(t, dict(zip(jn, ix), **{str(self.k.decl().name()): i}))
        if not sym(P):
            lv = [(True, P)]
        else:
            lv = leaves(P)
        if any(sym(v) and (deps(v) & names) and not v.eq(s) for _c, v in lv) and sym(P):
            lv = leaves(lift_ites(P))
        if any(deps(c) & names for c, _v in lv):
            raise Gave("store depends on the stored array")
        w = [(c, v) for c, v in lv if not (sym(v) and v.eq(s))]
        if not w:
            return lambda j, ix: prefn(*ix)
        if any(deps(v) & names for _c, v in w):
            # pointwise accumulation
            ds = []
            for c, v in lv:
                d = 0 if sym(v) and v.eq(s) else self.minus(v, s)
                if deps(d) & names:
                    raise Gave("recurrence between array elements")
                ds.append((c, d))
            delta = ds[-1][1]
            for c, d in reversed(ds[:-1]):
                delta = s_ite(c, d, delta)
            k0 = self.at_index(s_or(*[c for c, d in ds if not (not sym(d) and d == 0)]), J, hj)
            if k0 is not None:
                def V(j, ix):
                    i0 = dsubst(k0, dict(zip(jn, ix)))
                    return s_add(prefn(*ix), s_ite(s_and(s_cmp(">=", i0, 0), s_cmp("<", i0, j)), at(delta, i0, ix), 0))
                return V
            return lambda j, ix: s_add(prefn(*ix), SUM(j, lambda i: at(delta, i, ix)))
        cond = s_or(*[c for c, _v in w])
        cond = simp(cond) if sym(cond) else cond
        val = w[-1][1]
        for c, v in reversed(w[:-1]):
            val = s_ite(c, v, val)
        if sym(cond) and entails(hj, cond):
            cond = True
        if cond is True:
            return lambda j, ix: s_ite(s_cmp("<=", j, 0), prefn(*ix), at(val, s_sub(j, 1), ix))
        k0 = self.at_index(cond, J, hj)
        if k0 is not None:
            # index J can only be written in iteration k0(J)
            def V(j, ix):
                i0 = dsubst(k0, dict(zip(jn, ix)))
                c = s_and(s_cmp(">=", i0, 0), s_cmp("<", i0, j), at(cond, i0, ix))
                return s_ite(simp(c) if sym(c) else c, at(val, i0, ix), prefn(*ix))
            return V

        def V(j, ix):
            L = LAST(j, lambda i: at(cond, i, ix))
            return s_ite(s_cmp(">=", L, 0), at(val, L, ix), prefn(*ix))
        return V

    def at_index(self, cond, J, hj):
        """d(J) such that cond implies k == d(J)"""
        if not sym(cond):
            return None
        eqs = []

        def walk(t, seen):
            if t.get_id() in seen or len(eqs) > 20:
                return
            seen.add(t.get_id())
            if z3.is_eq(t) and t.arg(0).sort() == IS:
                eqs.append(t)
            for c in t.children():
                if c.sort() == BOOL:
                    walk(c, seen)
        walk(cond, set())
        kid = self.k.get_id()
        for e in eqs:
            try:
                a = S._affine(keep(e.arg(0) - e.arg(1)), self.k)
            except Unsupported:
                a = None
            if a is None:
                continue
            c, rest = a
            r = S.p_int({m: -v * c for m, v in rest.items()})
            r = simp(r)
            if entails(hj, s_or(s_not(cond), s_eq(self.k, r))):
                return r
        return None

    # ------------------------------------------------------------------ using the closed forms
    def register(self, key, v):
        """makes the closed form at iteration k available for the other locations"""
        rep = self.reps.get(key)
        if rep is None or rep[0] == "p" or v is None:
            return
        self.bind(key, v, self.k, self.cmap, self.fmap)

    def bind(self, key, v, j, cmap, fmap):
        rep = self.reps.get(key)
        if rep is None or rep[0] == "p":
            return
        if rep[0] == "s" and v[0] == "s":
            val = v[1](j)
            if isinstance(rep[1], Cx):
                val = cx(val)
                cmap[str(rep[1].re.decl().name())] = T(val.re)
                cmap[str(rep[1].im.decl().name())] = T(val.im)
            else:
                cmap[str(rep[1].decl().name())] = T(val)
        elif rep[0] == "a":
            fn = v[1](j)
            if len(rep[1]) == 2:
                fmap[rep[1][0]] = lambda *ix: cx(fn(*ix)).re
                fmap[rep[1][1]] = lambda *ix: cx(fn(*ix)).im
            else:
                fmap[rep[1][0]] = fn
        elif rep[0] == "l" and v[0] == "l":
            heap = self.it.heap
            a = v[1](j)
            m, names = rep[1]
            cmap[str(m.decl().name())] = T(a.shape[0])
            fn = a.content()
            if len(names) == 2:
                fmap[names[0]] = lambda *ix: cx(fn(*ix)).re
                fmap[names[1]] = lambda *ix: cx(fn(*ix)).im
            else:
                fmap[names[0]] = fn

    def enter(self, j):
        """puts the state at the start of iteration j into the heap"""
        for key in self.H:
            o, pre = self.pre[key]
            f = key[1]
            v = self.V.get(key)
            if isinstance(o, Buf):
                if v is None:
                    o.fn = T_.memo_clos(lambda *ix: self._unknown(key))
                else:
                    o.fn = v[1](j)
                o.sel = None
                continue
            if v is None:
                if isinstance(o, (PList, SymList)):
                    raise Unsupported("list built in the loop at line %d: %s" % (self.stmt.lineno, self.why.get(key)))
                self.setloc(o, f, Poison("changed in the loop at line %d: %s" % (self.stmt.lineno, self.why.get(key))))
                continue
            val = v[1](j)
            if isinstance(o, PList):
                sl = self.it.reg(SymList(val))
                self.rebind(o, sl)
            elif isinstance(o, SymList):
                o.arr = val
            else:
                if v[0] == "s1" and not entails(self.it.hyps, s_cmp(">=", j, 1)):
                    # value of the previous iteration: only there if there was one
                    if self.it.decide(s_cmp("<=", j, 0)):
                        self.setloc(o, f, pre)
                        continue
                self.setloc(o, f, val)

    def _unknown(self, key):
        raise Unsupported("array changed in the loop at line %d: %s" % (self.stmt.lineno, self.why.get(key)))

    # ------------------------------------------------------------------ verification of the invariants
    def verify(self, n):
        """initialisation and preservation of every closed form"""
        it = self.it
        k = self.k
        cmap, fmap = self.cmap, self.fmap
        h = self.hk
        if self.exits:
            e = self.sub(self.epc)
            h = h.plus(s_not(e))
        for key, v in self.V.items():
            if v is None or v[0] == "s1":
                continue
            o, pre = self.pre[key]
            rep = self.reps.get(key)
            nm = "%s line %d: invariant of %s" % (self.label, self.stmt.lineno, key[1] if isinstance(key[1], str) and key[1] not in ("fn", "items", "arr") else "array %d" % self.order(key))
            ck = self.vkey_(key)
            done = it.verified.get(ck)
            if done is None:
                t0 = len(it.loopobls)
                self.verify1(key, v, pre, rep, h, k, nm)
                it.verified[ck] = True

    def vkey_(self, key):
        """invariants are verified once per loop, location and code path"""
        return (id(self.stmt), self.no, key[1] if isinstance(key[1], str) else None, self.order(key), self.hk.key)

    def verify1(self, key, v, pre, rep, h, k, nm):
        it = self.it
        o = self.pre[key][0]
        k1 = simp(k + 1)
        if v[0] == "s":
            post = self.sub(self.merged(lambda c: c.post[key]))
            a0, a1 = v[1](0), v[1](k1)
            self.oblige(nm + " initially", it.hyps, self.eq(a0, pre))
            self.oblige(nm + " preserved", h, self.eq(a1, post))
        elif v[0] == "a":
            J = [self.const("j%d" % q, IS) for q in range(len(pre[1]))]
            hj = [s_and(j >= 0, s_cmp("<", j, d)) for j, d in zip(J, pre[1])]
            P = None
            posts = [c.post[key] for c in self.cont]
            P = posts[-1][0](*J)
            for pc, p in zip(reversed(self.cpc[:-1]), reversed(posts[:-1])):
                P = s_ite(pc, p[0](*J), P)
            P = self.sub(P)
            self.oblige(nm + " initially", it.hyps.plus(*hj), self.eq(v[1](0)(*J), pre[0](*J)))
            self.oblige(nm + " preserved", h.plus(*hj), self.eq(v[1](k1)(*J), P))
        elif v[0] == "l":
            a, b = v[1](k), v[1](k1)
            ln = [c.lists[key] if key in c.lists else c.post[key] for c in self.cont]
            P = ln[-1].shape[0]
            for pc, p in zip(reversed(self.cpc[:-1]), reversed(ln[:-1])):
                P = s_ite(pc, p.shape[0], P)
            P = self.sub(P)
            self.oblige(nm + " length preserved", h, self.eq(b.shape[0], P))
            r = self.const("r", IS)
            ac, bc = a.content(), b.content()
            self.oblige(nm + " elements preserved", h.plus(r >= 0, s_cmp("<", r, a.shape[0])), self.eq(bc(r), ac(r)))
            for pc, p in zip(self.cpc, ln):
                if p.tag[0] == "app":
                    self.oblige(nm + " appended element", h.plus(self.sub(pc)), self.eq(bc(a.shape[0]), self.sub(p.tag[2][0])))

    def eq(self, a, b):
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = cx(a), cx(b)
            return s_and(s_eq(a.re, b.re), s_eq(a.im, b.im))
        return s_eq(a, b)

    def oblige(self, nm, h, goal):
        it = self.it
        ok = S.prove(h, goal)
        it.loopobls[nm] = it.loopobls.get(nm, True) and bool(ok)
        if not ok:
            if S.LOG:
                print("  loop invariant fails:", nm, str(goal)[:600])
            raise Unsupported("loop invariant not verified: %s" % nm)


# ----------------------------------------------------------------------------- for loops
def for_loop(it, s, fr, n, item):
    if not it.decide(s_cmp(">", n, 0)):
        it.block(s.orelse, fr)
        return
    L = Loop(it, s, fr, fr.fname)
    k = L.const("k", IS)
    hk = it.hyps.plus(k >= 0, s_cmp("<", k, n))
    L.hk = hk

    def body(j):
        it.assign(s.target, item(j), fr)
        it.block(s.body, fr)
    finish(it, L, s, fr, n, k, hk, body)


def finish(it, L, s, fr, n, k, hk, body):
    ck = (id(s), L.no, tuple(it.dec[:it.pos]), it.hyps.key, it.ctx)
    if ck in it.loopcache:
        L.recall(it.loopcache[ck])
    else:
        L.iteration(lambda: body(k), hk)
        try:
            try:
                L.solve(k, n)
            except Gave:
                cands = L.ranges(k) if any(c.sig == "normal" for _h, c in L.paths) else []
                if not cands:
                    raise
                L.hk = hk = hk.plus(*[x for _key, x, _lo, _w in cands])
                L.iteration(lambda: body(k), hk)
                L.verify_ranges(cands)
                L.solve(k, n)
        except Gave as e:
            if not L.cont:
                body(0)      # leaves the loop by itself
                raise Unsupported("loop structure")
            raise Unsupported("loop at line %d: %s" % (s.lineno, e))
        L.verify(n)
        it.loopcache[ck] = L.store()
    if L.E is not None:
        F = FIRST(n, L.E)
        if it.decide(s_cmp("<", F, n)):
            L.enter(F)
            it.assume(L.E(F))
            try:
                body(F)
            except ContinueSig:
                pass
            except BreakSig:
                return
            raise PathDead()
    L.enter(n)
    it.block(s.orelse, fr)


# ----------------------------------------------------------------------------- while loops
def while_loop(it, s, fr):
    for _ in range(it.MAXUNROLL):
        c = it.truth(it.eval(s.test, fr))
        c = simp(c) if sym(c) else c
        if sym(c):
            if it.known(c):
                c = True
            elif it.known(s_not(c)):
                c = False
            else:
                break
        if not c:
            it.block(s.orelse, fr)
            return
        try:
            it.block(s.body, fr)
        except ContinueSig:
            continue
        except BreakSig:
            return
    c = it.truth(it.eval(s.test, fr))
    if not it.decide(c):
        it.block(s.orelse, fr)
        return
    L = Loop(it, s, fr, fr.fname)
    if counting(it, L, s, fr):
        return
    L = Loop(it, s, fr, fr.fname)

    # partial correctness: an arbitrary last iteration
    def body():
        if not it.decide(it.truth(it.eval(s.test, fr))):
            raise PathDead()
        it.block(s.body, fr)
    L.hk = it.hyps
    L.iteration(body, it.hyps)
    reps = {}
    for key in sorted(L.H, key=lambda q: L.H[q]):
        L.havoc(key, L.pre, L.kinds, reps)
    it.assumed.add("termination of the loop at %s line %d (partial correctness)" % (fr.fname, s.lineno))
    if not it.decide(it.truth(it.eval(s.test, fr))):
        raise PathDead()
    try:
        it.block(s.body, fr)
    except ContinueSig:
        pass
    except BreakSig:
        return
    if it.decide(it.truth(it.eval(s.test, fr))):
        raise PathDead()
    it.block(s.orelse, fr)


def counting(it, L, s, fr):
    """while i < n with i advanced by one in every iteration: treated as a for loop"""
    test = s.test
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
        return False
    a, b = test.left, test.comparators[0]
    op = type(test.ops[0]).__name__
    cand = []
    if op in ("Lt", "LtE", "NotEq") and isinstance(a, ast.Name):
        cand.append((a.id, b, op))
    if op in ("Gt", "GtE", "NotEq") and isinstance(b, ast.Name):
        cand.append((b.id, a, {"Gt": "Lt", "GtE": "LtE", "NotEq": "NotEq"}[op]))
    for var, bound, o in cand:
        i0 = fr.vars.get(var)
        if not isint(i0):
            continue
        hi = it.eval(bound, fr)
        if not isint(hi):
            continue
        n = s_sub(hi, i0)
        if o == "LtE":
            n = s_add(n, 1)
        if not it.known(s_cmp(">", n, 0)):
            continue
        k = L.const("k", IS)
        hk = it.hyps.plus(k >= 0, s_cmp("<", k, n))
        L.hk = hk

        def body(j):
            it.block(s.body, fr)
        try:
            L.iteration(lambda: body(k), hk)
            L.solve(k, n)
        except (Gave, Unsupported):
            continue
        key = (id(fr), var)
        v = L.V.get(key)
        if v is None or v[0] != "s" or not entails(hk, s_eq(v[1](k), s_add(i0, k))):
            continue
        # the bound must not change
        names = {x.id for x in ast.walk(bound) if isinstance(x, ast.Name)}
        if any((id(fr), q) in L.H for q in names) or any(isinstance(x, (ast.Call, ast.Subscript)) and not (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len") for x in ast.walk(bound)):
            continue
        L.verify(n)
        if L.E is not None:
            F = FIRST(n, L.E)
            if it.decide(s_cmp("<", F, n)):
                L.enter(F)
                it.assume(L.E(F))
                try:
                    body(F)
                except ContinueSig:
                    pass
                except BreakSig:
                    return True
                raise PathDead()
        L.enter(n)
        it.block(s.orelse, fr)
        return True
    return False


# ----------------------------------------------------------------------------- comprehensions
def comprehension(it, g, elt, sub, n, item):
    if not it.decide(s_cmp(">", n, 0)):
        return it.reg(PList([]))

    class St:
        lineno = elt.lineno
    L = Loop(it, elt, sub, sub.fname)
    k = L.const("k", IS)
    hk = it.hyps.plus(k >= 0, s_cmp("<", k, n))
    L.hk, L.k = hk, k
    box = {}

    def body(j):
        it.assign(g.target, item(j), sub)
        for c in g.ifs:
            if not it.decide(it.truth(it.eval(c, sub))):
                raise ReturnSig(("skip",))
        raise ReturnSig(("value", it.eval(elt, sub)))
    L.iteration(lambda: body(k), hk)
    for key in L.H:
        o, _p = L.pre[key]
        if o is not sub:
            raise Unsupported("comprehension with side effects")
    inc, vals, exits = [], [], []
    for _h, c in L.paths:
        pc = s_and(*c.pc)
        if c.sig == "raise":
            exits.append(pc)
        elif c.sig == "return" and c.val[0] == "value":
            inc.append(pc)
            vals.append(c.val[1])
        elif c.sig != "return":
            raise Unsupported("comprehension")
    own = set().union(*[L.syms(key) for key in L.H]) if L.H else set()
    for t in inc + exits + [v for v in vals if isscal(v)]:
        if deps(t) & own:
            raise Unsupported("comprehension depends on earlier iterations")
    if exits:
        e = s_or(*exits)
        F = FIRST(n, lambda j: L.at(e, j))
        if it.decide(s_cmp("<", F, n)):
            it.assume(L.at(e, F))
            try:
                body(F)
            except ReturnSig:
                pass
            raise PathDead()
    if not vals:
        return it.reg(PList([]))
    if not all(isscal(v) for v in vals):
        raise Unsupported("list of non-numbers")
    v = vals[-1]
    for pc, w in zip(reversed(inc[:-1]), reversed(vals[:-1])):
        v = s_ite(pc, w, v)
    cond = s_or(*inc)
    from nplib import sdt
    if not sym(cond) or entails(hk, cond):
        return it.reg(SymList(it.new_arr((n,), lambda i: L.at(v, i), sdt(v))))
    return it.reg(SymList(it.sel_arr(n, lambda i: L.at(cond, i), lambda i: L.at(v, i), sdt(v))))
