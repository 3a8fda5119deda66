"""The properties as obligations over the package's functions."""
import itertools
import math

import z3

import interp as P
import lemmas as L
import solve as S
import terms as T_
from nplib import s_floor, s_abs, v_abs, v_add, v_conj, v_div, v_mul, v_sub, s_div, s_round
from solve import ALL, ANY, ARGMAX, CNT, DFT, FIRST, Hyps, LAST, NTH, PERM, SIMP, SUM, Univ, entails, fresh
from terms import (B, Cx, I, R, RS, IS, T, Unsupported, conc, cx, keep, s_add, s_and, s_cmp, s_eq, s_ite, s_mul, s_neg, s_not, s_or, s_sub, simp, sym)


def lt(a, b):
    return s_cmp("<", a, b)


def le(a, b):
    return s_cmp("<=", a, b)


def ge(a, b):
    return s_cmp(">=", a, b)


def gt(a, b):
    return s_cmp(">", a, b)


def add1(i):
    return s_add(i, 1)


def case_variants(w):
    return ["".join(x) for x in itertools.product(*[(c.lower(), c.upper()) for c in w])]


# ----------------------------------------------------------------------------- C01
def crossing_spec(t, x, n, down):
    """predicate and time of a crossing between samples i and i+1"""
    if down:
        p = lambda i: s_and(ge(x(i), 0), lt(x(add1(i)), 0))
    else:
        p = lambda i: s_and(le(x(i), 0), gt(x(add1(i)), 0))
    # straight line between the two samples; the axis is uniform
    g = lambda i: s_add(t(i), s_div(s_mul(x(i), s_sub(t(add1(i)), t(i))), s_sub(x(i), x(add1(i)))))
    return p, g


def uniform(t, n):
    """time axis with constant positive step: t(i+1) - t(i) = t(1) - t(0) > 0"""
    return Univ(0, s_sub(n, 1), lambda i: s_and(s_eq(s_sub(t(add1(i)), t(i)), s_sub(t(1), t(0))), gt(t(add1(i)), t(i))))


def C01(c):
    n = c.n("n")
    t, x = c.fn("t"), c.fn("x")
    H = [n >= 2, uniform(t, n)]

    def variant(word, down):
        def f():
            ps = c.run(lambda: c.call("core_time.determine_zero_crossing", c.arr("t", n), c.arr("x", n), word), *H)
            p, g = crossing_spec(t, x, n, down)
            cnt = CNT(s_sub(n, 1), p)
            for q in c.returns("crossings %s" % word, ps):
                nw, tc = q.value
                h = q.hyps
                nm = "determine_zero_crossing(%s)" % word.lower()
                c.ob(nm + ": number of waves", h, s_eq(nw, s_ite(gt(cnt, 0), s_sub(cnt, 1), 0)))
                if tc.ndim == 2:
                    c.ob(nm + ": empty only without crossings", h, s_eq(cnt, 0))
                    continue
                c.ob(nm + ": number of crossings", h, s_eq(tc.shape[0], cnt))
                r = fresh("r")
                c.ob(nm + ": r-th crossing is the interpolated time of the r-th sign change", h.plus(r >= 0, lt(r, cnt)), s_eq(tc.at(r), g(NTH(r, p))))
                k = NTH(r, p)
                c.ob(nm + ": crossing time lies in its sample interval", h.plus(r >= 0, lt(r, cnt)), s_and(ge(tc.at(r), t(k)), le(tc.at(r), t(add1(k)))))
        c.part("determine_zero_crossing %s" % word, f)
    for w in case_variants("down"):
        variant(w, True)
    for w in case_variants("up"):
        variant(w, False)

    def reject():
        ps = c.run(lambda: c.call("core_time.determine_zero_crossing", c.arr("t", n), c.arr("x", n), P.SymStr("typeCross")), *H)
        for q in ps:
            if q.kind == "raise":
                continue
            atoms = [h for h in q.hyps.items if sym(h) and z3.is_const(h) and str(h).startswith("str!typeCross!")]
            ok = any(str(a).rsplit("!", 1)[1].lower() in ("up", "down") and str(a).split("!")[2] in ("lower", "upper", "casefold") for a in atoms)
            if not ok:
                c.fail("determine_zero_crossing: any other kind of crossing is rejected", "a path returns without having recognised the kind: %s" % atoms)
                return
        c.obls.append({"name": "determine_zero_crossing: any other kind of crossing is rejected", "status": "proved"})
    c.part("other kinds", reject)


# ----------------------------------------------------------------------------- C02
def stretch(t, n, tc):
    """first and last sample of wave w"""
    a = T_.memo_clos(lambda w: FIRST(n, lambda i: ge(t(i), tc(w))))
    b = T_.memo_clos(lambda w: LAST(n, lambda i: le(t(i), tc(add1(w)))))
    return a, b


def wave_spec(t, x, n, tc):
    a, b = stretch(t, n, tc)
    top = T_.memo_clos(lambda w: s_add(a(w), ARGMAX(s_add(s_sub(b(w), a(w)), 1), lambda i: x(s_add(a(w), i)))))
    low = T_.memo_clos(lambda w: s_add(a(w), ARGMAX(s_add(s_sub(b(w), a(w)), 1), lambda i: s_neg(x(s_add(a(w), i))))))
    return [lambda w: s_sub(x(top(w)), x(low(w))), lambda w: s_sub(tc(add1(w)), tc(w)), lambda w: x(top(w)), lambda w: x(low(w)), lambda w: t(top(w)), lambda w: t(low(w))]


WAVE_NAMES = ["height", "period", "crest", "trough", "crest time", "trough time"]


def wave_hyps(t, n, tc, m):
    a, b = stretch(t, n, tc)
    return [Univ(0, s_sub(n, 1), lambda i: lt(t(i), t(add1(i)))), Univ(0, s_sub(m, 1), lambda w: lt(tc(w), tc(add1(w)))),
            Univ(0, s_sub(m, 1), lambda w: s_and(lt(a(w), n), ge(b(w), 0), le(a(w), b(w))))]


def C02(c):
    n, m = c.n("n"), c.n("m")
    t, x, tc = c.fn("t"), c.fn("x"), c.fn("tc")
    q = "core_time.determine_params_individual_waves"

    def body():
        ps = c.run(lambda: c.call(q, c.arr("tc", m), c.arr("t", n), c.arr("x", n)), n >= 2, m >= 2, *wave_hyps(t, n, tc, m))
        sp = wave_spec(t, x, n, tc)
        a, b = stretch(t, n, tc)
        for p in c.returns("waves", ps):
            nm = "determine_params_individual_waves: "
            for v, f, k in zip(p.value, sp, WAVE_NAMES):
                c.eqarr(nm + k, p.hyps, v, s_sub(m, 1), f)
            w = fresh("w")
            h = p.hyps.plus(w >= 0, lt(w, s_sub(m, 1)))
            i = fresh("i")
            hi = h.plus(ge(i, a(w)), le(i, b(w)))
            H, T, C, L, TC, TL = [v.at(w) for v in p.value]
            c.ob(nm + "no sample of the stretch exceeds the crest or lies below the trough", hi, s_and(le(x(i), C), ge(x(i), L)))
            c.ob(nm + "height is not negative", h, ge(H, 0))
    c.part("waves", body)

    def meaning():
        """the stretch of the specification, from its first to its last sample, is what the property speaks of"""
        a, b = stretch(t, n, tc)
        w, i, d = fresh("w"), fresh("i"), c.n("lem_d")
        inc = Univ(0, s_sub(n, 1), lambda i: lt(t(i), t(add1(i))))
        st = lambda d: le(t(i), t(s_add(i, d)))
        c.ob("lemma increasing: base", Hyps().plus(i >= 0), st(0))
        c.ob("lemma increasing: step", Hyps().plus(inc, i >= 0, d >= 0, lt(s_add(i, d + 1), n), st(d)), st(d + 1))
        tr = [s_or(lt(y, x), le(t(x), t(y))) for x, y in ((a(w), i), (i, b(w)))]
        h = Hyps().plus(i >= 0, lt(i, n), lt(a(w), n), ge(b(w), 0), *tr)
        c.ob("the samples of a stretch are those from the first to the second crossing time", h,
             s_eq(s_and(ge(i, a(w)), le(i, b(w))), s_and(ge(t(i), tc(w)), le(t(i), tc(add1(w))))))
    c.part("meaning of a stretch", meaning)

    def none(k):
        def f():
            ps = c.run(lambda: c.call(q, c.arr("tc", k) if k else c.call("numpy.empty", (0, 0)) if False else c.arr("tc", k), c.arr("t", n), c.arr("x", n)), n >= 2)
            for p in c.returns("%d crossings" % k, ps):
                for v, w in zip(p.value, WAVE_NAMES):
                    c.ob("%d crossings give no waves: %s" % (k, w), p.hyps, s_eq(v.shape[0], 0))
        c.part("%d crossings" % k, f)
    none(0)
    none(1)

    def none2():
        ps = c.run(lambda: c.call(q, c.it.new_arr((0, 0), lambda i, j: 0, "f"), c.arr("t", n), c.arr("x", n)), n >= 2)
        for p in c.returns("no crossings", ps):
            for v, w in zip(p.value, WAVE_NAMES):
                c.ob("no crossings give no waves: %s" % w, p.hyps, s_eq(v.shape[0], 0))
    c.part("no crossings", none2)


# ----------------------------------------------------------------------------- C03
def sorted_spec(h, t, n):
    """stable descending order: index of the r-th wave"""
    key = lambda i: s_neg(h(i))
    pr = T_.memo_clos(lambda r: PERM(r, n, key))
    return pr, lambda r: h(pr(r)), lambda r: t(pr(r))


def C03(c):
    n, m = c.n("n"), c.n("m")
    h_, t_ = c.fn("h"), c.fn("T")
    q = "core_time.sort_wave_params"

    def body():
        ps = c.run(lambda: c.call(q, c.arr("h", n), c.arr("T", n)), n >= 1)
        pr, hs, ts = sorted_spec(h_, t_, n)
        for p in c.returns("sorting", ps):
            H, T = p.value
            nm = "sort_wave_params: "
            c.eqarr(nm + "heights in stable descending order", p.hyps, H, n, hs)
            c.eqarr(nm + "periods moved with their heights", p.hyps, T, n, ts)
            r, s = fresh("r"), fresh("s")
            hr = p.hyps.plus(r >= 0, lt(r, s), lt(s, n))
            c.ob(nm + "descending", hr, ge(H.at(r), H.at(s)))
            c.ob(nm + "equal heights keep their order", hr.plus(s_eq(H.at(r), H.at(s))), lt(pr(r), pr(s)))
            c.ob(nm + "no wave is repeated", hr, s_not(s_eq(pr(r), pr(s))))
            i = fresh("i")
            iv = S.INVP(i, n, lambda i: s_neg(h_(i)))
            c.ob(nm + "no wave is lost", p.hyps.plus(i >= 0, lt(i, n)), s_and(ge(iv, 0), lt(iv, n), s_eq(H.at(iv), h_(i)), s_eq(T.at(iv), t_(i))))
    c.part("sorting", body)

    def empty():
        ps = c.run(lambda: c.call(q, c.arr("h", 0), c.arr("T", 0)))
        for p in c.returns("no waves", ps):
            for v in p.value:
                c.ob("sort_wave_params: no waves stay no waves", p.hyps, s_eq(c.it.lib.size(v), 0))
    c.part("no waves", empty)

    def lengths():
        ps = c.run(lambda: c.call(q, c.arr("h", n), c.arr("T", m)), n >= 0, m >= 0, n != m)
        c.raises("sort_wave_params: lists of different length", ps, ("ValueError",))
    c.part("different lengths", lengths)


# ----------------------------------------------------------------------------- C04
def C04(c):
    n = c.n("n")
    h_, t_ = c.fn("h"), c.fn("T")
    desc = Univ(0, s_sub(n, 1), lambda i: ge(h_(i), h_(add1(i))))

    c.part("sorting an ordered list", lambda: sorted_unique(c))

    def frac():
        pf = c.real("p")
        ps = c.run(lambda: c.call("core_time.highest_waves_params", c.arr("h", n), c.arr("T", n), pf), n >= 0, ge(pf, 0), le(pf, 1), *monotone(h_, n))
        k = s_floor(s_mul(n, pf))
        for p in c.returns("highest waves", ps):
            H, T = p.value
            for v, f, w in ((H, h_, "height"), (T, t_, "period")):
                c.ob("highest_waves_params: mean %s of the first floor(N p) waves" % w, p.hyps, s_eq(v, s_ite(gt(k, 0), s_div(SUM(k, f), k), 0)))
    c.part("highest waves", frac)

    def exc():
        e = c.real("e")
        ps = c.run(lambda: c.call("core_time.exceedance_wave_height", c.arr("h", n), e), n >= 0, ge(e, 0), le(e, 100), *monotone(h_, n))
        k = s_floor(s_div(s_mul(n, e), 100))
        for p in c.returns("exceedance height", ps):
            c.ob("exceedance_wave_height: the floor(N e/100)-th highest", p.hyps, s_eq(p.value, s_ite(gt(k, 0), h_(s_sub(k, 1)), 0)))
    c.part("exceedance height", exc)

    def reject(what, f, *hyps):
        def g():
            c.raises(what, c.run(f, *hyps), ("ValueError",))
        c.part(what, g)
    pf, e = c.real("p"), c.real("e")
    reject("fraction outside [0,1]", lambda: c.call("core_time.highest_waves_params", c.arr("h", n), c.arr("T", n), pf), n >= 0, z3.Or(pf < 0, pf > 1))
    reject("percentage outside [0,100]", lambda: c.call("core_time.exceedance_wave_height", c.arr("h", n), e), n >= 0, z3.Or(e < 0, e > 100))
    j = c.n("j")
    up = [n >= 2, j >= 0, lt(j, s_sub(n, 1)), lt(h_(j), h_(add1(j)))]
    reject("heights not in descending order (fraction)", lambda: c.call("core_time.highest_waves_params", c.arr("h", n), c.arr("T", n), pf), ge(pf, 0), le(pf, 1), *up)
    reject("heights not in descending order (exceedance)", lambda: c.call("core_time.exceedance_wave_height", c.arr("h", n), e), ge(e, 0), le(e, 100), *up)


def sorted_unique(c):
    """the rule used for sorting an ordered array: if h is descending, the r-th smallest value is h(n-1-r);
    if ascending, h(r). By transitivity of the order and the pigeonhole principle, both by induction."""
    n, r = c.n("su_n"), c.n("su_r")
    h, f = c.fn("su_h"), c.fn("su_f", z3.IntSort())
    i, j, d, q = [c.n("su_" + w) for w in "ijdq"]
    for w, rel in (("descending", ge), ("ascending", le)):
        adj = Univ(0, s_sub(n, 1), lambda i: rel(h(i), h(add1(i))))
        st = lambda d: rel(h(i), h(s_add(i, d)))
        c.ob("lemma sorted: %s is transitive (base)" % w, Hyps().plus(i >= 0), st(0))
        c.ob("lemma sorted: %s is transitive (step)" % w, Hyps().plus(adj, i >= 0, d >= 0, lt(s_add(i, d + 1), n), st(d)), st(d + 1))
    # pigeonhole: no injection of 0..r into 0..r-1
    def inj(f, r):
        """(range, injective) at arbitrary places"""
        return s_and(ge(f(i), 0), lt(f(i), r)), s_or(s_not(s_eq(f(i), f(j))), s_eq(i, j))
    R_ = r + 1
    c.ob("lemma pigeonhole: base", Hyps().plus(ge(f(0), 0), lt(f(0), 0)), False)
    rng = Univ(0, R_ + 1, lambda i: s_and(ge(f(i), 0), lt(f(i), R_)))
    ii = [s_or(s_not(s_eq(f(a), f(b))), s_eq(a, b)) for a, b in ((i, j), (i, R_), (j, R_))]
    g = lambda i: s_ite(s_eq(f(i), r), f(R_), f(i))
    hy = Hyps().plus(rng, r >= 0, i >= 0, j >= 0, le(i, r), le(j, r), *ii)
    a, b = inj(g, r)
    c.ob("lemma pigeonhole: step, range", hy, a)
    c.ob("lemma pigeonhole: step, injective", hy, b)
    # a permutation that sorts
    P_ = lambda k: PERM(k, n, h)
    for w, rel, pos in (("descending", ge, lambda r: s_sub(s_sub(n, 1), r)), ("ascending", le, lambda r: r)):
        at = pos(r)
        base = Hyps().plus(n >= 1, r >= 0, lt(r, n), i >= 0, j >= 0)
        tr = [s_or(lt(P_(x), 0), lt(at, 0), s_not(le(P_(x), at)), rel(h(P_(x)), h(at))) for x in (i, s_add(r, i))] + \
             [s_or(lt(at, 0), s_not(le(at, P_(x))), rel(h(at), h(P_(x)))) for x in (i, s_add(r, i))]
        # too small: the r+1 smallest are all below h(at), too large: the n-r largest are all above
        for nm, bad, m, e in (("too small", lt(h(P_(r)), h(at)), r, lambda k: P_(k)), ("too large", gt(h(P_(r)), h(at)), s_sub(s_sub(n, 1), r), lambda k: P_(s_add(r, k)))):
            shift = 0
            if (w, nm) == ("descending", "too small"):
                shift = s_sub(n, r)
            if (w, nm) == ("ascending", "too large"):
                shift = s_add(r, 1)
            fn = lambda k: s_sub(e(k), shift)
            hy = base.plus(bad, le(i, m), le(j, m), *tr)
            a, b = inj(fn, m)
            c.ob("lemma sorted: %s, %s: an injection into too few places (range)" % (w, nm), hy, a)
            c.ob("lemma sorted: %s, %s: an injection into too few places (injective)" % (w, nm), hy, b)


def stable_identity(c):
    """the rule used for a stable argsort of an ascending array: the identity. An increasing map of 0..n-1 into itself
    is the identity (two inductions); a stable argsort of an ascending array is increasing (transitivity as above)."""
    n, r, d = c.n("si_n"), c.n("si_r"), c.n("si_d")
    h = c.fn("si_h")
    P_ = lambda k: PERM(k, n, h)
    tr = S.imp(s_and(ge(P_(s_add(r, 1)), 0), le(P_(s_add(r, 1)), P_(r))), le(h(P_(s_add(r, 1))), h(P_(r))))
    c.ob("lemma stable: increasing", Hyps().plus(r >= 0, lt(r + 1, n), tr), lt(P_(r), P_(s_add(r, 1))))
    inc = Univ(0, s_sub(n, 1), lambda i: lt(P_(i), P_(add1(i))))
    c.ob("lemma stable: from below, base", Hyps().plus(n >= 1), ge(P_(0), 0))
    c.ob("lemma stable: from below, step", Hyps().plus(r >= 0, lt(r + 1, n), lt(P_(r), P_(s_add(r, 1))), ge(P_(r), r)), ge(P_(s_add(r, 1)), r + 1))
    top = lambda d: P_(s_sub(s_sub(n, 1), d))
    c.ob("lemma stable: from above, base", Hyps().plus(n >= 1), le(top(0), n - 1))
    c.ob("lemma stable: from above, step", Hyps().plus(d >= 0, lt(d + 1, n), lt(top(d + 1), top(d)), le(top(d), n - 1 - d)), le(top(d + 1), n - 2 - d))


def monotone(h, n):
    """descending heights: the defining condition and (proved by induction in lemma_monotone) its transitive form"""
    return [Univ(0, s_sub(n, 1), lambda i: ge(h(i), h(add1(i))))]


# ----------------------------------------------------------------------------- C06
def axis(c, nm):
    """uniform axis: first value + i * positive step"""
    a, d = c.real(nm + "0"), c.real("d" + nm)
    return (lambda i: s_add(a, s_mul(i, d))), d, [d > 0]


def conj_sym(X, n):
    """folded transform to full transform"""
    return lambda k: X(k)


def fold(n):
    return s_add(s_floor(s_div(n, 2)), 1)


def parity(c, f):
    """the even and the odd numbers of samples"""
    m = c.n("m")
    f("even", s_mul(2, m), [m >= 1])
    f("odd", s_add(s_mul(2, m), 1), [m >= 1])


def C06(c):
    x = c.fn("x")
    t, dt, Ht = axis(c, "t")
    n = c.n("n")

    def full():
        ps = c.run(lambda: c.call("core_spectral.time2freq", c.arrf(t, n), c.arr("x", n)), n >= 2, *Ht)
        for p in c.returns("time2freq", ps):
            f, X = p.value
            c.eqarr("time2freq: frequency axis k/(n dt)", p.hyps, f, n, lambda k: s_div(k, s_mul(n, dt)))
            c.eqarr("time2freq: discrete Fourier transform", p.hyps, X, n, lambda k: DFT(k, n, x))
    c.part("full transform", full)

    def back():
        def run():
            f, X = c.call("core_spectral.time2freq", c.arrf(t, n), c.arr("x", n))
            return c.call("core_spectral.freq2time", X)
        for p in c.returns("full axis and back", c.run(run, n >= 2, *Ht)):
            c.eqarr("freq2time(time2freq(x)) = x", p.hyps, p.value, n, x)
    c.part("full transform and back", back)

    def folded(word, n, H):
        def f1():
            ps = c.run(lambda: c.call("core_spectral.time2freq_nyquist", c.arrf(t, n), c.arr("x", n)), *H, *Ht)
            for p in c.returns("time2freq_nyquist", ps):
                f, X, odd = p.value
                nm = "time2freq_nyquist (%s): " % word
                c.eqarr(nm + "lowest frequencies", p.hyps, f, fold(n), lambda k: s_div(k, s_mul(n, dt)))
                c.eqarr(nm + "lowest coefficients", p.hyps, X, fold(n), lambda k: DFT(k, n, x))
                c.ob(nm + "parity flag", p.hyps, s_eq(odd, word == "odd"))
        c.part("folded transform, %s" % word, f1)

        def f2():
            def run():
                f, X, odd = c.call("core_spectral.time2freq_nyquist", c.arrf(t, n), c.arr("x", n))
                return c.call("core_spectral.unfold_spectrum", f, X, odd)
            for p in c.returns("unfolding", c.run(run, *H, *Ht)):
                f, X = p.value
                nm = "unfold_spectrum(time2freq_nyquist) (%s): " % word
                c.eqarr(nm + "frequencies", p.hyps, f, n, lambda k: s_div(k, s_mul(n, dt)))
                c.eqarr(nm + "all coefficients", p.hyps, X, n, lambda k: DFT(k, n, x))
        c.part("unfolding, %s" % word, f2)

        def f3():
            def run():
                f, X, odd = c.call("core_spectral.time2freq_nyquist", c.arrf(t, n), c.arr("x", n))
                f, X = c.call("core_spectral.unfold_spectrum", f, X, odd)
                return c.call("core_spectral.freq2time", X)
            for p in c.returns("folded axis and back", c.run(run, *H, *Ht)):
                c.eqarr("freq2time(unfold_spectrum(time2freq_nyquist(x))) = x (%s)" % word, p.hyps, p.value, n, x)
        c.part("folded transform and back, %s" % word, f3)
    parity(c, folded)


# ----------------------------------------------------------------------------- C07
def sq(z):
    z = cx(z)
    return s_add(s_mul(z.re, z.re), s_mul(z.im, z.im))


def C07(c):
    x = c.fn("x")
    t, dt, Ht = axis(c, "t")

    def density(n, k):
        return s_div(s_mul(2, sq(DFT(k, n, x))), s_div(s_mul(n, n), s_mul(n, dt)))

    def both(word, n, H):
        nF = fold(n)

        def f1():
            ps = c.run(lambda: c.call("core_spectral.compute_spectrum_time_series", c.arrf(t, n), c.arr("x", n)), *H, *Ht)
            for p in c.returns("time series", ps):
                f, S_ = p.value
                nm = "compute_spectrum_time_series (%s): " % word
                c.eqarr(nm + "frequencies", p.hyps, f, nF, lambda k: s_div(k, s_mul(n, dt)))
                c.eqarr(nm + "2|X_k|^2/(n^2 df)", p.hyps, S_, nF, lambda k: density(n, k))
                i = fresh("i")
                c.ob(nm + "not negative", p.hyps.plus(i >= 0, lt(i, nF)), ge(S_.at(i), 0))
        c.part("time series, %s" % word, f1)

        def f2():
            df = s_div(1, s_mul(n, dt))
            X = lambda k: DFT(k, n, x)
            ps = c.run(lambda: c.call("core_spectral.compute_spectrum_freq_series", c.arrf(lambda k: s_mul(k, df), nF), c.arrf(X, nF, dtype="c"), n), *H, *Ht)
            for p in c.returns("components", ps):
                f, S_ = p.value
                nm = "compute_spectrum_freq_series (%s): " % word
                c.eqarr(nm + "frequencies", p.hyps, f, nF, lambda k: s_div(k, s_mul(n, dt)))
                c.eqarr(nm + "the same density as from the time series", p.hyps, S_, nF, lambda k: density(n, k))
        c.part("components, %s" % word, f2)
    parity(c, both)
    parseval(c, x, dt)


def parseval(c, x, dt):
    """sum of the density times df = variance, from Parseval's identity of the full transform"""
    import lemmas as L

    def go(word, n, H):
        def f():
            m = c.n("m")
            df = s_div(1, s_mul(n, dt))
            g = T_.memo_clos(lambda k: sq(DFT(k, n, x)))
            dens = lambda k: s_div(s_mul(2, g(k)), s_div(s_mul(n, n), s_mul(n, dt)))
            # contract of the transform: Parseval; X_0 is the sum of the samples
            G, GF, G0, Gm, X2 = [c.real(k) for k in ("sumAll", "sumFold", "g0", "gNyq", "sumSquares")]
            nF = fold(n)
            h = Hyps().plus(*H).plus(dt > 0)
            fl = L.fold(c, "|X_k|^2 (%s)" % word, h, m, word == "odd", g)
            c.ob("content of the mean (%s)" % word, h.plus(s_eq(DFT(0, n, x).re, 0)), s_eq(g(0), 0))
            if word == "even":
                c.ob("content at the Nyquist frequency", h.plus(s_eq(DFT(m, n, x).re, 0), s_eq(DFT(m, n, x).im, 0)), s_eq(g(m), 0))
            # arithmetic over the sums: G over all coefficients, GF over the folded ones, X2 of the squared samples
            c.ob("the folded sum (%s)" % word, Hyps().plus(*H).plus(fl), s_eq(SUM(n, g), s_sub(s_sub(s_mul(2, SUM(nF, g)), g(0)), 0 if word == "odd" else g(m))))
            ha = Hyps().plus(*H).plus(dt > 0, s_eq(G, s_mul(n, X2)), s_eq(G, s_sub(s_sub(s_mul(2, GF), G0), 0 if word == "odd" else Gm)), s_eq(G0, 0), s_eq(Gm, 0))
            c.ob("sum of the density times df is the mean square (%s), given Parseval's identity" % word, ha, s_eq(s_mul(s_div(s_mul(2, GF), s_div(s_mul(n, n), s_mul(n, dt))), df), s_div(X2, n)))
            c.ob("sum of the density (%s)" % word, h, s_eq(SUM(nF, dens), s_div(s_mul(2, SUM(nF, g)), s_div(s_mul(n, n), s_mul(n, dt)))))
        c.part("variance, %s" % word, f)
    parity(c, go)
    c.assume.append("Parseval's identity for the discrete Fourier transform (sum |X_k|^2 = n sum x^2) and X_0 = sum x")


# ----------------------------------------------------------------------------- C08
def band(f1f0, want, n):
    m = s_ite(s_eq(want, 0), 1, None)


def C08(c):
    import lemmas as L
    n = c.n("n")
    f, df, Hf = axis(c, "f")
    s = c.fn("S")
    d = c.real("dfDesired")
    q = "core_spectral.frequency_averaging"

    def blocks_(i, m, g):
        return s_div(SUM(m, lambda j: g(s_add(s_mul(i, m), j))), m)

    def check(word, m, ps):
        nc = s_floor(s_div(n, m))
        for p in c.returns(word, ps):
            fc, sc = p.value
            nm = "frequency_averaging (%s): " % word
            c.eqarr(nm + "mean frequency of each group of m samples", p.hyps, fc, nc, lambda i: blocks_(i, m, f))
            c.eqarr(nm + "mean density of each group of m samples", p.hyps, sc, nc, lambda i: blocks_(i, m, s))
    r = s_round(s_div(d, df))

    def given():
        m = s_ite(ge(r, 1), r, 1)
        ps = c.run(lambda: c.call(q, c.arrf(f, n), c.arr("S", n), d), n >= 2, d != 0, *Hf)
        check("spacing given", m, ps)
    c.part("spacing given", given)

    def none():
        for word, run in (("zero", lambda: c.call(q, c.arrf(f, n), c.arr("S", n), 0)), ("omitted", lambda: c.call(q, c.arrf(f, n), c.arr("S", n)))):
            for p in c.returns("spacing " + word, c.run(run, n >= 2, *Hf)):
                fc, sc = p.value
                c.eqarr("frequency_averaging (spacing %s): frequencies unchanged" % word, p.hyps, fc, n, f)
                c.eqarr("frequency_averaging (spacing %s): densities unchanged" % word, p.hyps, sc, n, s)
    c.part("no spacing", none)

    def energy():
        k, m = c.n("k"), c.n("m")
        h = Hyps().plus(k >= 0, m >= 1, df > 0).plus(L.blocks(c, k, m, s))
        area = s_mul(SUM(k, lambda i: blocks_(i, m, s)), s_mul(m, df))
        c.ob("the area under the group means equals the area of the samples used", h, s_eq(area, s_mul(SUM(s_mul(k, m), s), df)))
        i, lo, hi = fresh("i"), c.real("lo"), c.real("hi")
        h = Hyps().plus(m >= 1, i >= 0, Univ(0, m, lambda j: s_and(le(lo, s(s_add(s_mul(i, m), j))), le(s(s_add(s_mul(i, m), j)), hi))))
        g = lambda j: s(s_add(s_mul(i, m), j))
        h = h.plus(L.sum_le(c, "every sample at most the largest", h, m, g, lambda j: hi), L.sum_le(c, "every sample at least the smallest", h, m, lambda j: lo, g))
        c.ob("every group mean lies between the smallest and largest sample of its group", h, s_and(le(lo, blocks_(i, m, s)), le(blocks_(i, m, s), hi)))
    c.part("energy", energy)


# ----------------------------------------------------------------------------- C09
def C09(c):
    n = c.n("n")
    x = c.fn("x")
    lo, hi = c.real("flow"), c.real("fhigh")
    X = c.cfn("X")
    df = c.real("df")
    f = lambda k: s_mul(k, df)

    def keepc(k, nF, f):
        last = f(s_sub(nF, 1))
        return s_and(ge(k, 1), lt(lo, last), ge(f(k), lo), s_or(ge(hi, last), lt(f(k), hi)))

    def v_if(cnd, v):
        v = cx(v)
        return Cx(s_ite(cnd, v.re, 0), s_ite(cnd, v.im, 0))

    def folded():
        ps = c.run(lambda: c.call("core_spectral.applybandfilter", c.arrf(f, n), c.arrf(X, n, dtype="c"), lo, hi), n >= 2, df > 0, hi >= lo)
        for p in c.returns("folded components", ps):
            c.eqarr("applybandfilter: exactly the components inside the band", p.hyps, p.value, n, lambda k: v_if(keepc(k, n, f), X(k)))
    c.part("folded components", folded)
    t, dt, Ht = axis(c, "t")

    def signal(word, n, H):
        nF = fold(n)
        fq = lambda k: s_div(k, s_mul(n, dt))

        def Z(k):
            k2 = s_sub(n, k)
            return v_if(s_ite(lt(k, nF), keepc(k, nF, fq), keepc(k2, nF, fq)), DFT(k, n, x))
        zre, zim = T_.memo_clos(lambda k: Z(k).re), T_.memo_clos(lambda k: Z(k).im)

        def contract(b):
            """applybandfilter, as proved above: for a frequency axis k*df"""
            fa, xa, lo_, hi_ = b["f"], b["xFreq"], b["flow"], b["fhigh"]
            if not (P.isarr(fa) and P.isarr(xa) and fa.ndim == xa.ndim == 1):
                return NotImplemented
            nf, fs, xs = fa.shape[0], fa.content(), xa.content()
            i = fresh("i")
            ok = c.pre("applybandfilter: two or more samples of equal number, upper limit not below the lower", s_and(ge(nf, 2), s_eq(nf, xa.shape[0]), ge(hi_, lo_)))
            ok = ok and c.pre("applybandfilter: uniform axis from zero", s_and(s_eq(fs(i), s_mul(i, fs(1))), gt(fs(1), 0)), i >= 0, lt(i, nf))
            if not ok:
                return NotImplemented
            return c.it.new_arr((nf,), lambda k: v_if(keepc(k, nf, fs), xs(k)), "c")

        def go():
            c.use("core_spectral.applybandfilter", contract)
            ps = c.run(lambda: c.call("core_spectral.bandpassfilter", c.arrf(t, n), c.arr("x", n), lo, hi), *H, *Ht, hi >= lo)
            for p in c.returns("signal", ps):
                c.eqarr("bandpassfilter (%s): the signal with exactly the components inside the band" % word, p.hyps, p.value, n,
                        lambda j: DFT(j, n, zre, zim, inverse=True).re)
        c.part("signal, %s" % word, go)

        def adjoining():
            a, b, d = c.real("low"), c.real("mid"), c.real("high")

            def z(lo, hi):
                k2 = lambda k: s_sub(n, k)
                kk = lambda k: s_ite(lt(k, nF), keep1(k, lo, hi), keep1(k2(k), lo, hi))
                g = T_.memo_clos(lambda k: v_if(kk(k), DFT(k, n, x)))
                return T_.memo_clos(lambda k: g(k).re), T_.memo_clos(lambda k: g(k).im)

            def keep1(k, lo, hi):
                last = fq(s_sub(nF, 1))
                return s_and(ge(k, 1), lt(lo, last), ge(fq(k), lo), s_or(ge(hi, last), lt(fq(k), hi)))
            j = fresh("j")
            h = Hyps().plus(*H).plus(dt > 0, a <= b, b <= d, j >= 0, lt(j, n))
            F = lambda lo, hi: DFT(j, n, *z(lo, hi), inverse=True).re
            c.ob("filters of adjoining bands add up to the filter of the joined band (%s)" % word, h.plus(lt(b, fq(s_sub(nF, 1)))), s_eq(s_add(F(a, b), F(b, d)), F(a, d)))
            k = fresh("k")
            c.ob("a component kept once is kept when filtering again, a removed one stays zero (%s)" % word, h.plus(k >= 0, lt(k, nF)),
                 s_eq(v_if(keep1(k, a, d), Cx(s_ite(keep1(k, a, d), DFT(k, n, x).re, 0), 0)).re, s_ite(keep1(k, a, d), DFT(k, n, x).re, 0)))
        c.part("adjoining bands, %s" % word, adjoining)
    parity(c, signal)


# ----------------------------------------------------------------------------- C10
def C10(c):
    import lemmas as L
    n = c.n("n")
    f, df, Hf = axis(c, "f")
    X, Y = c.cfn("X"), c.cfn("Y")
    d = c.real("dfDesired")
    q = "core_spectral.coherence"
    ab = T_.memo_clos(lambda z: z)
    U = lambda k: v_abs(cx(X(k)))
    V = lambda k: v_abs(cx(Y(k)))
    EPS = S.Fraction(1, 10 ** 10) if hasattr(S, "Fraction") else T_.Fraction(1, 10 ** 10)

    def go(word, args, m, H):
        def f_():
            def run(A, B_):
                return c.call(q, c.arrf(f, n), c.arrf(A, n, dtype="c"), c.arrf(B_, n, dtype="c"), *args)
            ps = c.run(lambda: (run(X, Y), run(Y, X)), n >= 2, *Hf, *H)
            nc = s_floor(s_div(n, m))
            for p in c.returns("coherence %s" % word, ps):
                (fa, ca), (fb, cb) = p.value
                nm = "coherence (%s): " % word
                c.ob(nm + "one value per band", p.hyps, s_and(s_eq(ca.shape[0], nc), s_eq(fa.shape[0], nc)))
                i = fresh("i")
                h = p.hyps.plus(i >= 0, lt(i, nc))
                idx = lambda j: s_add(s_mul(i, m), j)
                cr = lambda k: v_abs(v_mul(cx(X(k)), v_conj(cx(Y(k)))))
                uv = s_div(SUM(m, lambda j: cr(idx(j))), m)
                uu = s_div(SUM(m, lambda j: sq(X(idx(j)))), m)
                vv = s_div(SUM(m, lambda j: sq(Y(idx(j)))), m)
                fl = lambda v: s_ite(lt(v, EPS), EPS, v)
                c.ob(nm + "frequencies are the band means", h, s_eq(fa.at(i), s_div(SUM(m, lambda j: f(idx(j))), m)))
                c.ob(nm + "square of the mean cross magnitude over the product of the mean auto-spectra", h, s_eq(ca.at(i), s_div(s_mul(uv, uv), s_mul(fl(uu), fl(vv)))))
                c.ob(nm + "unchanged when the signals are exchanged", h, s_eq(ca.at(i), cb.at(i)))
        c.part("coherence %s" % word, f_)
    r = s_round(s_div(d, df))
    go("spacing given", (d,), s_ite(ge(r, 1), r, 1), [d != 0])
    go("no spacing", (), 1, [])

    def bounds():
        m, a, b = c.n("m"), c.n("i0"), None
        U = lambda j: v_abs(cx(X(s_add(a, j))))
        V = lambda j: v_abs(cx(Y(s_add(a, j))))
        i = fresh("i")
        cr = lambda j: v_abs(v_mul(cx(X(s_add(a, j))), v_conj(cx(Y(s_add(a, j))))))
        c.ob("the cross magnitude is the product of the magnitudes", Hyps(), s_and(s_eq(s_mul(cr(i), cr(i)), s_mul(sq(X(s_add(a, i))), sq(Y(s_add(a, i))))), ge(cr(i), 0)))
        c.ob("magnitudes", Hyps(), s_and(s_eq(cr(i), s_mul(U(i), V(i))), s_eq(s_mul(U(i), U(i)), sq(X(s_add(a, i)))), ge(U(i), 0), ge(V(i), 0)))
        uv, uu, vv = [c.real(k) for k in ("uv", "uu", "vv")]
        fl = lambda v: s_ite(lt(v, EPS), EPS, v)
        h = Hyps().plus(uv >= 0, uu >= 0, vv >= 0, uv * uv <= uu * vv, L.cauchy(c, m, U, V))
        g = s_div(s_mul(uv, uv), s_mul(fl(uu), fl(vv)))
        c.ob("between 0 and 1, by the inequality of Cauchy and Schwarz for the band", h, s_and(ge(g, 0), le(g, 1)))
        k = c.real("k")
        h = Hyps().plus(k > 0, uu >= EPS, vv >= EPS, s_eq(uv, k * uu), s_eq(vv, k * k * uu))
        c.ob("1 for proportional signals with energy", h, s_eq(g, 1))
        c.ob("0 for a band without energy", Hyps().plus(uv >= 0, uu >= 0, vv >= 0, uv * uv <= uu * vv, z3.Or(uu == 0, vv == 0)), s_eq(g, 0))
    c.part("bounds", bounds)


# ----------------------------------------------------------------------------- C11
def C11(c):
    n = c.n("n")
    f, df, Hf = axis(c, "f")
    s = c.fn("S")
    t0, t1, dt = c.real("tInit"), c.real("tEnd"), c.real("dt")
    q = "core_spectral.spectrum2timeseries"
    seed = c.n("seed")
    H = [n >= 2, dt > 0, t1 > t0, Univ(0, n, lambda i: ge(s(i), 0))] + Hf
    nT = S_ceil(s_div(s_sub(s_add(t1, dt), t0), dt))
    half = S_ceil(s_div(nT, 2))
    N = s_mul(2, half)
    dfg = s_div(1, s_mul(N, dt))

    def body(word, args):
        def go():
            ps = c.run(lambda: c.call(q, c.arrf(f, n), c.arr("S", n), t0, t1, dt, *args[0]), *(H + args[1]))
            for p in c.returns("synthesis", ps):
                t, x = p.value
                nm = "spectrum2timeseries (%s): " % word
                h = p.hyps
                c.ob(nm + "number of samples", h, s_and(s_eq(t.shape[0], nT), s_eq(x.shape[0], nT)))
                j = fresh("j")
                hj = h.plus(j >= 0, lt(j, nT))
                c.ob(nm + "starts at the start time with the requested step", hj, s_eq(t.at(j), s_add(t0, s_mul(j, dt))))
                c.ob(nm + "ends at or less than one step beyond the end time", h, s_and(ge(t.at(s_sub(nT, 1)), t1), lt(t.at(s_sub(nT, 1)), s_add(t1, dt))))
                harmonics(nm, hj, x.at(j), j)
        c.part(word, go)

    def harmonics(nm, h, v, j):
        """v is N times the j-th value of an inverse transform; what are its coefficients?"""
        fs = S.Sat()
        fs.scan(v)
        g = [k for k in fs.fns.values() if k.kind == "IFTcr"]
        if len(g) != 1:
            raise Unsupported("the series is not one inverse transform")
        g = g[0]
        c.ob(nm + "N times an inverse transform of N coefficients", h, s_and(s_eq(v, s_mul(N, g.const)), s_eq(g.scal[1], N), s_eq(g.scal[0], j)))
        re, im = g.clos[0][1], g.clos[1][1]
        c.ob(nm + "no constant part", h, s_and(s_eq(re(0), 0), s_eq(im(0), 0)))
        k, i = fresh("k"), fresh("i")
        hk = h.plus(k >= 1, lt(k, half))
        c.ob(nm + "the upper half are the conjugates of the lower half", hk, s_and(s_eq(re(s_sub(N, k)), re(k)), s_eq(im(s_sub(N, k)), s_neg(im(k)))))
        fg = s_mul(k, dfg)
        pw = s_mul(4, s_add(s_mul(re(k), re(k)), s_mul(im(k), im(k))))
        line = lambda kk: s_add(s(i), s_mul(s_div(s_sub(s_mul(kk, dfg), f(i)), df), s_sub(s(add1(i)), s(i))))
        inside = lambda kk: [i >= 0, lt(i, s_sub(n, 1)), le(f(i), s_mul(kk, dfg)), le(s_mul(kk, dfg), f(add1(i)))]
        c.ob(nm + "amplitude sqrt(2 S df) with S interpolated", hk.plus(*inside(k)), s_eq(pw, s_mul(2, s_mul(line(k), dfg))))
        c.ob(nm + "zero outside the range of the given spectrum", hk.plus(z3.Or(B(lt(fg, f(0))), B(gt(fg, f(s_sub(n, 1)))))), s_eq(pw, 0))
        m = half
        pm = s_mul(re(m), re(m))
        c.ob(nm + "at most half of the amplitude at the Nyquist frequency", h.plus(*inside(m)), le(s_mul(4, pm), s_mul(2, s_mul(line(m), dfg))))
        c.ob(nm + "zero outside the range, Nyquist frequency", h.plus(z3.Or(B(lt(s_mul(m, dfg), f(0))), B(gt(s_mul(m, dfg), f(s_sub(n, 1)))))), s_eq(pm, 0))
    body("with a seed", ((seed,), [seed >= 0]))
    body("without a seed", ((), []))

    def again():
        def run():
            a = c.call(q, c.arrf(f, n), c.arr("S", n), t0, t1, dt, seed)
            c.call("core_spectral.spectrum2timeseries", c.arrf(f, n), c.arr("S", n), t0, t1, dt)
            return a, c.call(q, c.arrf(f, n), c.arr("S", n), t0, t1, dt, seed)
        for p in c.returns("twice", c.run(run, seed >= 0, *H)):
            (ta, xa), (tb, xb) = p.value
            c.eqarr("the same non-negative seed gives the same series", p.hyps, xb, xa.shape[0], xa.content())
    c.part("same seed", again)


def S_ceil(x):
    from nplib import s_ceil
    return s_ceil(x)


# ----------------------------------------------------------------------------- C12
INF = float("inf")


def isinf_(v):
    return isinstance(v, float) and v == INF


def nearest(n, g, v):
    """index of the sample nearest to v (the first of several)"""
    return ARGMAX(n, lambda i: s_neg(s_abs(s_sub(g(i), v))))


def ipow(x, m):
    from nplib import v_pow
    return v_pow(x, m)


def moment_spec(f, df, s, n, m, lo, hi, skip):
    """(list of (extra assumption, value)): Simpson over the nearest samples, plus the tail beyond the axis"""
    off = 1 if skip else 0
    g = lambda i: f(s_add(off, i))
    sp = lambda i: s(s_add(off, i))
    N = s_sub(n, off)
    last = s_sub(N, 1)
    iLo = 0 if lo is None else nearest(N, g, lo)
    iHi = last if hi is None or isinf_(hi) else nearest(N, g, hi)
    fn = lambda a: (lambda i: s_mul(ipow(g(s_add(a, i)), m), sp(s_add(a, i))))
    part = lambda a, b: SIMP(s_ite(ge(b, a), s_add(s_sub(b, a), 1), 0), fn(a), df)
    if hi is None:
        return [((), part(iLo, iHi))]
    e = m - 4
    gl = g(last)
    top = 0 if isinf_(hi) else ipow(hi, e)
    tail = s_div(s_mul(s_mul(sp(last), ipow(gl, 5)), s_sub(top, ipow(gl, e))), e)
    beyond = (s_add(part(iLo, last), tail))
    if isinf_(hi):
        return [((), beyond)]
    return [((le(hi, gl),), part(iLo, iHi)), ((gt(hi, gl),), beyond)]


def settle_ends(h, *terms):
    """the terms with every nearest-sample index that provably is an end of its axis replaced by that end"""
    seen, todo, sub = set(), [t for t in terms if sym(t)], {}
    while todo:
        u = todo.pop()
        if not sym(u) or u.get_id() in seen:
            continue
        seen.add(u.get_id())
        fn = T_.fn_of(u)
        if fn is not None:
            if fn.kind == "ARGMAX" and not any(sym(x) and "b!" in str(x) for x in fn.scal):
                for end in (0, s_sub(fn.scal[0], 1)):
                    if S.prove(h, s_eq(fn.const, end)):
                        sub[fn.name] = end if sym(end) else z3.IntVal(end)
                        break
            todo += [x for x in fn.scal if sym(x)]
            for _ph, b in fn.bodies:
                todo += [b.re, b.im] if isinstance(b, Cx) else [b]
        todo += u.children()
    return [T_.dsubst(t, sub) if sub and sym(t) else t for t in terms]


def C12(c):
    n = c.n("n")
    f, df, Hf = axis(c, "f")
    f0 = f(0)
    s = c.fn("S")
    lo, hi = c.real("fmin"), c.real("fmax")
    q = "core_wavefunctions.compute_moment"

    def go(m, lov, hiv, zero, n=n):
        word = "order %d, lower limit %s, upper limit %s%s%s" % (m, "omitted" if lov is None else "given", "omitted" if hiv is None else "infinite" if isinf_(hiv) else "given", ", axis from zero" if zero else "", ", two frequencies" if isinstance(n, int) else "")

        def g():
            H = ([] if isinstance(n, int) else [n >= 3]) + Hf + ([s_eq(f0, 0)] if zero else [f0 > 0])
            kw = {}
            if lov is not None:
                kw["fmin"] = lov
                H += [lov >= 0, lov != -1, lov <= f(s_sub(n, 1))]
            if hiv is not None:
                kw["fmax"] = hiv
                if not isinf_(hiv):
                    H += [hiv != -1, hiv > (lov if lov is not None else f0)]
            ax = (lambda i: s_mul(i, df)) if zero else f
            for extra, val in moment_spec(ax, df, s, n, m, lov, hiv, zero and m < 0):
                ps = c.run(lambda: c.call(q, c.arrf(ax, n), c.arr("S", n), m, **kw), *(H + list(extra)))
                for p in c.returns(word, ps):
                    c.ob("compute_moment, %s%s" % (word, (", within the axis" if len(extra) and hiv is not None and extra[0] is not None and "<=" in str(extra[0]) else ", beyond the axis") if extra else ""), p.hyps, s_eq(*settle_ends(p.hyps, p.value, val)))
        c.part(word, g)
    for m in (-1, 0, 1, 2):
        for lov in (None, lo):
            for hiv in (None, hi, INF):
                for zero in (False, True):
                    go(m, lov, hiv, zero)
                go(m, lov, hiv, False, 2)
    for m in (-2, 3):
        go(m, lo, hi, False)
        go(m, lo, hi, True)

    # frequencies stored as integers: the same values
    k0, dk = c.n("k0"), c.n("dk")
    kax = lambda i: s_add(k0, s_mul(dk, i))
    kf = lambda i: T_.R(kax(i))

    def whole(m, lov, hiv):
        word = "axis of integers, order %d, %s" % (m, "whole axis" if hiv is None else "to infinity" if isinf_(hiv) else "between limits")

        def g():
            kw = {k: v for k, v in (("fmin", lov), ("fmax", hiv)) if v is not None}
            H = [n >= 2, k0 >= 1, dk >= 1] + ([lov >= 0, hiv > lov, lov <= kf(s_sub(n, 1))] if lov is not None else [])
            for extra, val in moment_spec(kf, T_.R(dk), s, n, m, lov, hiv, False):
                ps = c.run(lambda: c.call(q, c.arrf(kax, n, dtype="i"), c.arr("S", n), m, **kw), *(H + list(extra)))
                for p in c.returns(word, ps):
                    c.ob("compute_moment, %s%s" % (word, (", within the axis" if "<=" in str(extra[0]) else ", beyond the axis") if extra else ""), p.hyps, s_eq(*settle_ends(p.hyps, p.value, val)))
        c.part(word, g)
    for m in (-1, 0, 2):
        whole(m, None, None)
        whole(m, None, INF)
        whole(m, lo, hi)

    def scale():
        k = c.real("k")
        ps = c.run(lambda: (c.call(q, c.arrf(f, n), c.arr("S", n), 1, fmin=lo, fmax=hi), c.call(q, c.arrf(f, n), c.arrf(lambda i: s_mul(k, s(i)), n), 1, fmin=lo, fmax=hi)),
                   n >= 2, f0 > 0, lo >= 0, hi > lo, k > 0, *Hf)
        for p in c.returns("proportional", ps):
            c.ob("moments are proportional to the spectrum", p.hyps, s_eq(p.value[1], s_mul(k, p.value[0])))
    c.part("proportional", scale)


# ----------------------------------------------------------------------------- contract of compute_moment, used by C13-C16
def affine_of(c, a):
    """(first value, step) of an array that is provably a uniform axis with positive step, else None"""
    if not P.isarr(a) or a.ndim != 1:
        return None
    fn, n = a.content(), a.shape[0]
    i = fresh("i")
    f0 = fn(0)
    df = s_sub(fn(1), f0)
    ok = c.pre("two or more frequencies", ge(n, 2)) and c.pre("uniform increasing axis", s_and(s_eq(fn(i), s_add(f0, s_mul(i, df))), gt(df, 0)), i >= 0, lt(i, n))
    return (f0, T_.conc(T_.canon(R(df))) if sym(df) else df) if ok else None


def limit(c, v, default):
    """a frequency limit: -1 stands for the end of the axis"""
    if isinstance(v, float):
        return v
    if not sym(v):
        return default if v == -1 else v
    if entails(c.it.hyps, s_not(s_eq(v, -1))):
        return v
    return s_ite(s_eq(v, -1), default, v)


def moment_contract(c):
    def g(b):
        m = b["m"]
        if sym(m) or not P.isarr(b["f"]) or not P.isarr(b["sVarDens"]) or b["sVarDens"].ndim != 1:
            return NotImplemented
        ax = affine_of(c, b["f"])
        if ax is None or not c.pre("equal lengths", s_eq(b["f"].shape[0], b["sVarDens"].shape[0])):
            return NotImplemented
        n = b["f"].shape[0]
        f0, df = ax
        last = s_add(f0, s_mul(s_sub(n, 1), df))
        lo, hi = limit(c, b["fmin"], f0), limit(c, b["fmax"], last)
        return S.MOM(n, f0, df, m, lo, hi, b["sVarDens"].content())
    c.use("core_wavefunctions.compute_moment", g)


def mom(c, n, f0, df, S_, m, lo=None, hi=None):
    last = s_add(f0, s_mul(s_sub(n, 1), df))
    return S.MOM(n, f0, df, m, f0 if lo is None else lo, last if hi is None else hi, S_)


# ----------------------------------------------------------------------------- C13
G_ = T_.Fraction("9.81")


def consts(t):
    """the uninterpreted constants of a term"""
    out, seen, stack = {}, set(), [t]
    while stack:
        u = stack.pop()
        if not sym(u) or u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[str(u)] = u
        stack += u.children()
    return [out[k] for k in sorted(out)]


def v_sqrt_(x):
    from nplib import v_sqrt
    return v_sqrt(x)


def C13(c):
    n = c.n("n")
    f, df, Hf = axis(c, "f")
    f0 = f(0)
    s = c.fn("S")
    lo, hi, gr = c.real("fmin"), c.real("fmax"), c.real("g")
    last = f(s_sub(n, 1))
    M = lambda m, a=None, b=None, S_=s: mom(c, n, f0, df, S_, m, a, b)
    base = [n >= 2, f0 >= 0] + Hf
    Tm = lambda a=None, b=None: s_div(M(-1, a, b), M(0, a, b))
    H0 = lambda a=None, b=None: s_mul(4, v_sqrt_(M(0, a, b)))
    CUT = T_.Fraction("0.45")

    def tps_contract(b):
        """the smoothed peak period as a function of the samples of the band (specified in C17)"""
        fa, sa = b["f"], b["sVarDens"]
        if not (P.isarr(fa) and P.isarr(sa) and fa.ndim == sa.ndim == 1):
            return NotImplemented
        k = fa.shape[0]
        return T_.functional("TPS", (k,), [((k,), fa.content()), ((sa.shape[0],), sa.content())], RS)

    def obj(S_=None):
        return c.call("spectrum.Spectrum", c.arrf(f, n), c.arrf(S_ or s, n))

    def lims(which):
        kw, H = {}, []
        a = b = None
        if "l" in which:
            kw["fmin"], a = lo, lo
            H += [lo >= f0, lo < last]
        if "h" in which:
            kw["fmax"], b = hi, hi
            H += [hi > (lo if a is not None else f0), hi <= last]
        return kw, a, b, H

    # the peak periods need a sample inside the band
    js = c.n("jband")
    holds = [js >= 0, lt(js, n), le(lo, f(js)), le(f(js), hi)]

    def getter(name, which, spec, extra={}, H2=()):
        def go():
            moment_contract(c)
            c.use("core_wavefunctions.compute_tps", tps_contract)
            kw, a, b, H = lims(which)
            kw.update(extra)
            ps = c.run(lambda: c.meth(obj(), name, **kw), *(base + H + list(H2)))
            for p in c.returns("%s %s" % (name, which), ps):
                c.ob("Spectrum.%s (%s)" % (name, {"": "no limits", "l": "lower limit", "h": "upper limit", "lh": "both limits"}[which]), p.hyps, s_eq(p.value, spec(a, b)))
        c.part("%s %s" % (name, which), go)

    def steep(h, t, g=G_):
        return s_div(s_mul(s_mul(2, T_.PI), h), s_mul(g, s_mul(t, t)))
    cut = s_div(CUT, Tm())
    pos = [M(0) > 0, M(-1) > 0] if sym(M(0)) else []
    for w in ("", "l", "h", "lh"):
        getter("get_Hm0", w, H0)
        getter("get_Tmm10", w, Tm)
        getter("get_Tm01", w, lambda a, b: s_div(M(0, a, b), M(1, a, b)))
        getter("get_Tm02", w, lambda a, b: v_sqrt_(s_div(M(0, a, b), M(2, a, b))))
        getter("get_smm10", w, lambda a, b: steep(H0(a, b), Tm(a, b)))
        getter("get_Hm0_HF", w, lambda a, b: H0(cut if a is None else a, b), {}, pos)
        getter("get_Tmm10_HF", w, lambda a, b: Tm(cut if a is None else a, b), {}, pos)
        getter("get_smm10_HF", w, lambda a, b: steep(H0(cut if a is None else a, b), Tm(cut if a is None else a, b)), {}, pos)
        getter("get_Hm0_LF", w, lambda a, b: H0(a, cut if b is None else b), {}, pos)
        getter("get_Tmm10_LF", w, lambda a, b: Tm(a, cut if b is None else b), {}, pos)
    getter("get_smm10", "", lambda a, b: steep(H0(), Tm(), gr), {"g": gr}, [gr > 0])

    def steepness(which):
        def go():
            moment_contract(c)
            c.use("core_wavefunctions.compute_tps", tps_contract)
            kw, a, b, H = lims(which)

            def run():
                o = obj()
                t = c.meth(o, "get_Tps", **kw)
                return t, c.meth(obj(), "get_s0p", **kw), c.meth(obj(), "get_s0p", g=gr, **kw)
            for p in c.returns("get_s0p", c.run(run, gr > 0, *(base + H))):
                t, s1, s2 = p.value
                c.ob("Spectrum.get_s0p (%s)" % (which or "no limits"), p.hyps, s_eq(s1, steep(H0(a, b), t)))
                c.ob("Spectrum.get_s0p with another gravity (%s)" % (which or "no limits"), p.hyps, s_eq(s2, steep(H0(a, b), t, gr)))
        c.part("steepness %s" % which, go)
    for w in ("", "l", "h", "lh"):
        steepness(w)

    def function(which):
        def go():
            moment_contract(c)
            c.use("core_wavefunctions.compute_tps", tps_contract)
            kw, a, b, H = lims(which)

            def run():
                r = c.call("core_wavefunctions.compute_spectrum_params", c.arrf(f, n), c.arr("S", n), **kw)
                o = obj()
                return r, [c.meth(o, m, **kw) for m in ("get_Hm0", "get_Tp", "get_Tps", "get_Tmm10", "get_Tm01", "get_Tm02")]
            small = lt(H0(a, b), T_.Fraction(1, 10 ** 6))
            ps = c.run(run, M(0, a, b) >= 0, *(base + H + (holds if which == "lh" else [])))
            for p in c.returns("compute_spectrum_params", ps):
                r, o = p.value
                w = {"": "no limits", "l": "lower limit", "h": "upper limit", "lh": "both limits"}[which]
                if isinstance(r[0], float):
                    c.ob("compute_spectrum_params (%s): not-a-number only below 1e-6" % w, p.hyps, small)
                    c.ob("compute_spectrum_params (%s): all not-a-number" % w, p.hyps, all(isinstance(v, float) and v != v for v in r))
                    continue
                c.ob("compute_spectrum_params (%s): not-a-number below 1e-6" % w, p.hyps, s_not(small))
                for u, v, nm in zip(r, o, ("Hm0", "Tp", "Tps", "Tmm10", "Tm01", "Tm02")):
                    c.ob("compute_spectrum_params (%s): %s as the object" % (w, nm), p.hyps, s_eq(u, v))
        c.part("compute_spectrum_params %s" % which, go)
    for w in ("", "l", "h", "lh"):
        function(w)

    def scaling():
        moment_contract(c)
        k = c.real("k")
        names = ("get_Hm0", "get_Tmm10", "get_Tm01", "get_Tm02")
        ps = c.run(lambda: [(c.meth(obj(), m), c.meth(obj(lambda i: s_mul(k, s(i))), m)) for m in names], k > 0, M(0) > 0, M(1) > 0, M(2) > 0, *base)
        for p in c.returns("scaling", ps):
            (h1, h2), *ts = p.value
            c.ob("a positive factor multiplies the height by its square root", p.hyps, s_eq(h2, s_mul(v_sqrt_(k), h1)))
            for nm, (a, b) in zip(names[1:], ts):
                c.ob("a positive factor leaves %s unchanged" % nm, p.hyps, s_eq(a, b))
    c.part("scaling", scaling)


# ----------------------------------------------------------------------------- C05
WAVE_STATS = ["get_Hs", "get_Hrms", "get_Hmax", "get_H2p_Rayleigh", "get_exceedance_waveheight", "highest_waves", "sort"]


def C05(c):
    n = c.n("n")
    h_, t_ = c.fn("h"), c.fn("T")
    pf, e = c.real("p"), c.real("e")
    pr, hs, ts = sorted_spec(h_, t_, n)
    BASE = [ge(pf, 0), le(pf, 1), ge(e, 0), le(e, 100)]
    c.part("sorting an ordered list", lambda: (sorted_unique(c), stable_identity(c)))
    KEEP = ["hwave", "twave", "nwave"]

    def rearranged():
        """what does not depend on the order of the waves"""
        key = lambda i: s_neg(h_(i))
        mx = ARGMAX(n, h_)
        at = fresh("at")
        return [L.perm_sum(c, n, key, lambda i: s_mul(h_(i), h_(i))), L.perm_sum(c, n, key, h_), L.perm_sum(c, n, key, t_), s_eq(at, S.INVP(mx, n, key))]

    def obj(state=0, empty=False):
        if empty:
            return c.call("series.WaveHeights", c.arr("h", 0), c.arr("T", 0))
        o = c.call("series.WaveHeights", c.arr("h", n), c.arr("T", n))
        if state:
            o.attrs["hwave"], o.attrs["twave"] = c.arrf(hs, n), c.arrf(ts, n)
        return o

    def args(name):
        return {"get_exceedance_waveheight": [e], "highest_waves": [pf]}.get(name, [])

    def requests():
        k = c.it.func("series.WaveHeights")
        return WAVE_STATS + sorted(m for m in k.methods if m.startswith("get_") and m not in WAVE_STATS)

    def state_kept(nm, p, o, state):
        H, T = o.attrs.get("hwave"), o.attrs.get("twave")
        if not (P.isarr(H) and P.isarr(T) and H.ndim == T.ndim == 1):
            c.fail(nm + ": the waves are kept", "no lists of waves")
            return
        c.ob(nm + ": the number of waves is kept", p.hyps, s_and(s_eq(H.shape[0], n), s_eq(T.shape[0], n), s_eq(o.attrs.get("nwave"), n)))
        i = fresh("i")
        hi = p.hyps.plus(i >= 0, lt(i, n))
        same = [s_and(s_eq(H.at(i), a), s_eq(T.at(i), b)) for a, b in ((h_(i), t_(i)), (hs(i), ts(i)))]
        if state == 0 and entails(hi, same[0]):
            c.obls.append({"name": nm + ": the waves are kept, in the original or in sorted order", "status": "proved"})
        else:
            c.ob(nm + ": the waves are kept, in the original or in sorted order", hi, same[1])

    def history(name, state):
        def go():
            nm = "WaveHeights.%s, waves %s" % (name, "in sorted order" if state else "in the original order")

            def run():
                a = obj()
                r1 = outcome(lambda: c.meth(a, name, *args(name)))
                o = obj(state)
                held = containers(o, KEEP)
                before = {k: v.state() for k, v in held.items()}
                unknown_history(c, o, KEEP)
                r2 = outcome(lambda: c.meth(o, name, *args(name)))
                for k, v in held.items():
                    if k in o.attrs and v.state() != before[k]:
                        raise Unsupported("the object collects results in a container")
                return r1, r2, o
            n0, u0 = len(c.obls), len(c.unsupported)
            why = None
            try:
                for p in c.returns(nm, c.run(run, n >= 1, *(BASE + rearranged()))):
                    r1, r2, o = p.value
                    same_outcome(c, nm + ": the same answer after any history", p.hyps, r1, r2)
                    state_kept(nm, p, o, state)
            except Unsupported as x:
                why = str(x)
            if why is None and any(o["status"] == "failed" and ("any history" in o["name"] or "no error" in o["name"]) for o in c.obls[n0:]) and assigned(c.it.func("series.WaveHeights")) - set(KEEP):
                why = "results are stored in the object"
            if why is not None:
                c.obls[n0:] = []
                c.unsupported[u0:] = []
                c.bounded.append("%s: histories of one earlier request only (%s)" % (nm, why))
                if not state:
                    pairs(name)
        c.part("%s %d" % (name, state), go)

    def pairs(name):
        for other in requests():
            def run():
                a = obj()
                r1 = outcome(lambda: c.meth(a, name, *args(name)))
                o = obj()
                outcome(lambda: c.meth(o, other, *args(other)))
                return r1, outcome(lambda: c.meth(o, name, *args(name)))
            for p in c.returns(name, c.run(run, n >= 1, *(BASE + rearranged()))):
                same_outcome(c, "WaveHeights.%s: the same answer after %s" % (name, other), p.hyps, *p.value)

    for name in WAVE_STATS:
        for state in (0, 1):
            history(name, state)

    # the same requests to a time series object, whose record must stay as it is
    m = c.n("m")
    x_ = c.fn("x")
    tt, dt, Ht = axis(c, "t")
    REC = KEEP + ["time", "xTime", "nt", "dt"]

    def record(state):
        wave_contracts(c)
        o = c.call("series.Series", c.arrf(tt, m), c.arrf(x_, m))
        o.attrs["hwave"], o.attrs["twave"], o.attrs["nwave"] = (c.arrf(hs, n), c.arrf(ts, n), n) if state else (c.arr("h", n), c.arr("T", n), n)
        return o

    def of_record(name, state, *a):
        def go():
            nm = "Series.%s%s, waves %s" % (name, "".join("(%s)" % v for v in a if isinstance(v, str)), "in sorted order" if state else "in the original order")

            def run():
                r1 = outcome(lambda: c.meth(record(0), name, *a))
                o = record(state)
                held = containers(o, REC)
                before = {k: v.state() for k, v in held.items()}
                unknown_history(c, o, REC)
                r2 = outcome(lambda: c.meth(o, name, *a))
                for k, v in held.items():
                    if k in o.attrs and v.state() != before[k]:
                        raise Unsupported("the object collects results in a container")
                return r1, r2, o
            n0, u0 = len(c.obls), len(c.unsupported)
            why = None
            try:
                for p in c.returns(nm, c.run(run, n >= 1, m >= 3, *(BASE + rearranged() + Ht))):
                    r1, r2, o = p.value
                    same_outcome(c, nm + ": the same answer after any history", p.hyps, r1, r2)
                    state_kept(nm, p, o, state)
                    for at, f in (("time", tt), ("xTime", x_)):
                        c.eqarr("%s: %s is kept" % (nm, at), p.hyps, o.attrs[at], m, f)
            except Unsupported as x:
                why = str(x)
            if why is None and any(o["status"] == "failed" and ("any history" in o["name"] or "no error" in o["name"]) for o in c.obls[n0:]) and assigned(c.it.func("series.Series")) - set(REC) - {"tCross"}:
                why = "results are stored in the object"
            if why is not None:
                c.obls[n0:] = []
                c.unsupported[u0:] = []
                c.bounded.append("%s: not for every history (%s)" % (nm, why))
        c.part("record %s %s %d" % (name, a and str(a[0]), state), go)
    for state in (0, 1):
        for name in WAVE_STATS:
            of_record(name, state, *args(name))
        of_record("get_crossing", state)
        of_record("get_crossing", state, "down")
        of_record("get_crossing", state, "up")

    def more():
        for name in requests()[len(WAVE_STATS):]:
            for state in (0, 1):
                def run():
                    a, o = obj(), obj(state)
                    return outcome(lambda: c.meth(a, name)), outcome(lambda: c.meth(o, name)), o
                try:
                    ps = c.run(run, n >= 1, *(BASE + rearranged()))
                except (Unsupported, P.PyRaise):
                    continue
                for p in ps:
                    if p.kind == "return" and p.value[0][0] == "return":
                        same_outcome(c, "WaveHeights.%s: the same answer in either order" % name, p.hyps, *p.value[:2])
                        state_kept("WaveHeights." + name, p, p.value[2], state)
    c.part("further requests", more)

    def plots():
        """drawing leaves the waves and the record as the requests do"""
        for cls, mk, rec in (("WaveHeights", obj, False), ("Series", record, True)):
            k = c.it.func("series." + cls)
            for name in sorted(m for m in k.methods if m.startswith("plot")):
                names = [a.arg for a in k.methods[name].node.args.args]
                variants = [{}] + [{b: True} for b in ("normalize", "plot_crossing") if b in names]
                for state in (0, 1):
                    for kw in variants:
                        nm = "%s.%s(%s), waves %s" % (cls, name, ", ".join(kw), "in sorted order" if state else "in the original order")

                        def run():
                            o = mk(state)
                            unknown_history(c, o, REC if rec else KEEP)
                            return outcome(lambda: c.meth(o, name, **kw)), o
                        for p in c.run(run, n >= 1, m >= 3, *(BASE + rearranged() + Ht)):
                            if p.kind != "return":
                                continue
                            o = p.value[1]
                            state_kept(nm, p, o, state)
                            for at, f in (("time", tt), ("xTime", x_)) if rec else ():
                                c.eqarr("%s: %s is kept" % (nm, at), p.hyps, o.attrs[at], m, f)
    c.part("plots", plots)

    def nothing():
        for other in WAVE_STATS:
            def run():
                o = obj(empty=True)
                a = [outcome(lambda: c.meth(o, m, *args(m))) for m in ("get_Hs", "get_exceedance_waveheight", "highest_waves", "get_H2p_Rayleigh")]
                outcome(lambda: c.meth(o, other, *args(other)))
                return a, [outcome(lambda: c.meth(o, m, *args(m))) for m in ("get_Hs", "get_exceedance_waveheight", "highest_waves", "get_H2p_Rayleigh")], o
            for p in c.returns("no waves", c.run(run, *BASE)):
                a, b, o = p.value
                for x, y in zip(a, b):
                    same_outcome(c, "no waves: the same answer after %s" % other, p.hyps, x, y)
                c.ob("no waves: %s adds none" % other, p.hyps, s_and(s_eq(o.attrs["nwave"], 0), s_eq(c.it.lib.size(o.attrs["hwave"]), 0)))
    c.part("no waves", nothing)

    def definitions():
        ps = c.run(lambda: (c.meth(obj(), "get_Hrms"), c.meth(obj(), "get_Hmax")), n >= 1)
        for p in c.returns("definitions", ps):
            r, m = p.value
            c.ob("the root-mean-square height is the square root of the mean squared height", p.hyps, s_eq(r, v_sqrt_(s_div(SUM(n, lambda i: s_mul(h_(i), h_(i))), n))))
            i = fresh("i")
            c.ob("the maximum height is not exceeded", p.hyps.plus(i >= 0, lt(i, n)), ge(m, h_(i)))
            c.ob("the maximum height is that of a wave", p.hyps, s_eq(m, h_(ARGMAX(n, h_))))
    c.part("definitions", definitions)


# ----------------------------------------------------------------------------- histories of an object (C05, C15)
def outcome(f):
    """('return', value) or ('raise', exception name)"""
    try:
        return "return", f()
    except P.PyRaise as e:
        return "raise", e.name


def assigned(cls):
    """names of the attributes of the object that methods other than the constructor assign"""
    import ast
    out, seen = set(), set()

    def walk(k):
        if not isinstance(k, P.ClassVal) or id(k) in seen:
            return
        seen.add(id(k))
        for nm, f in k.methods.items():
            if isinstance(f, P.Poison):
                raise Unsupported("decorated method " + nm)
            if nm == "__init__":
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    out.add(x.attr)
                if isinstance(x, ast.Name) and x.id in ("setattr", "delattr", "vars") or isinstance(x, ast.Attribute) and x.attr in ("__dict__", "__setattr__"):
                    raise Unsupported("attributes assigned under a computed name")
        for b in k.bases:
            walk(b)
    walk(cls)
    return out


def unknown_history(c, o, keepattrs):
    """the object after any sequence of requests, as far as attributes outside keepattrs go"""
    for a in sorted(assigned(o.cls) - set(keepattrs)):
        first = (o.attrs.pop(a),) if a in o.attrs else None
        o.havoc[a] = (keep(z3.Bool("set!" + a)), keep(z3.Real("old!" + a)), first)
    return o


def containers(o, keepattrs):
    """mutable containers held by the object besides the kept attributes"""
    return {a: v for a, v in o.attrs.items() if a not in keepattrs and isinstance(v, (P.PDict, P.PList, P.SymList, P.Inst))}


def same_outcome(c, name, h, a, b):
    if a[0] != b[0] or a[0] == "raise":
        c.ob(name, h, a == b if a[0] == b[0] == "raise" else False)
        return
    same_value(c, name, h, a[1], b[1])


def same_value(c, name, h, a, b):
    if isinstance(a, (tuple, P.PList)) and isinstance(b, (tuple, P.PList)):
        a, b = list(getattr(a, "items", a)), list(getattr(b, "items", b))
        if len(a) != len(b):
            c.ob(name, h, False)
            return
        for x, y in zip(a, b):
            same_value(c, name, h, x, y)
        return
    if P.isarr(a) and P.isarr(b):
        if a.ndim != b.ndim:
            c.ob(name, h, False)
            return
        ix = [fresh("i") for _ in a.shape]
        hx = h
        for u, v, i in zip(a.shape, b.shape, ix):
            c.ob(name + ": size", h, s_eq(u, v))
            hx = hx.plus(i >= 0, lt(i, u))
        c.eqv(name, hx, a.at(*ix), b.at(*ix))
        return
    if P.isarr(a) or P.isarr(b) or a is None or b is None or isinstance(a, (str, P.Inst)) or isinstance(b, (str, P.Inst)):
        c.ob(name, h, a is b or isinstance(a, str) and a == b)
        return
    c.eqv(name, h, a, b)


# ----------------------------------------------------------------------------- C15
SPECTRUM_PARAMS = ["get_Hm0", "get_Hm0_HF", "get_Hm0_LF", "get_Tp", "get_Tps", "get_Tmm10", "get_Tmm10_HF", "get_Tmm10_LF", "get_Tm01", "get_Tm02", "get_s0p", "get_smm10", "get_smm10_HF"]


def tps_functional(b):
    """the smoothed peak period as a function of the samples of the band (specified in C17)"""
    fa, sa = b["f"], b["sVarDens"]
    if not (P.isarr(fa) and P.isarr(sa) and fa.ndim == sa.ndim == 1):
        return NotImplemented
    return T_.functional("TPS", (fa.shape[0],), [((fa.shape[0],), fa.content()), ((sa.shape[0],), sa.content())], RS)


def C15(c):
    n = c.n("n")
    f, df, Hf = axis(c, "f")
    f0 = f(0)
    s = c.fn("S")
    lo, hi, lo2, hi2, gr = [c.real(k) for k in ("fmin", "fmax", "fmin2", "fmax2", "g")]
    base = [n >= 2, f0 >= 0, mom(c, n, f0, df, s, 0) > 0, mom(c, n, f0, df, s, -1) > 0] + Hf
    KEEP = ["f", "sVarDens", "D"]

    def obj():
        return c.call("spectrum.Spectrum", c.arrf(f, n), c.arrf(s, n))

    def setup():
        moment_contract(c)
        c.use("core_wavefunctions.compute_tps", tps_functional)

    def known():
        """every request the class offers"""
        k = c.it.func("spectrum.Spectrum")
        return SPECTRUM_PARAMS + sorted(m for m in k.methods if m.startswith("get_") and m not in SPECTRUM_PARAMS)

    def args(name, lo, hi):
        kw = {"fmin": lo, "fmax": hi}
        if name in ("get_s0p", "get_smm10", "get_smm10_HF"):
            kw["g"] = gr
        return kw

    def data_unchanged(nm, h, o):
        for a, spec, w in (("f", f, "frequencies"), ("sVarDens", s, "densities")):
            v = o.attrs.get(a)
            if v is None:
                c.fail("%s leaves the %s unchanged" % (nm, w), "attribute gone")
                continue
            c.eqarr("%s leaves the %s unchanged" % (nm, w), h, v, n, spec)

    def any_history(name):
        def go():
            setup()

            def run():
                a = obj()
                r1 = outcome(lambda: c.meth(a, name, **args(name, lo, hi)))
                o = obj()
                held = containers(o, KEEP)
                before = {k: v.state() for k, v in held.items()}
                unknown_history(c, o, KEEP)
                r2 = outcome(lambda: c.meth(o, name, **args(name, lo, hi)))
                for k, v in held.items():
                    if k in o.attrs and v.state() != before[k]:
                        raise Unsupported("the object collects results in a container")
                return r1, r2, o
            n0, u0 = len(c.obls), len(c.unsupported)
            try:
                ps = c.run(run, gr > 0, *base)
                for p in c.returns(name, ps):
                    r1, r2, o = p.value
                    same_outcome(c, "Spectrum.%s: the same answer after any history" % name, p.hyps, r1, r2)
                    data_unchanged("Spectrum." + name, p.hyps, o)
            except Unsupported as e:
                c.obls[n0:] = []
                c.bounded.append("Spectrum.%s: histories of one earlier request only (%s)" % (name, e))
                pairs(name)
                return
            bad = [o for o in c.obls[n0:] if o["status"] == "failed" and "any history" in o["name"]]
            if bad:
                # the attributes left behind may be restricted by an invariant that is not known here
                c.obls[n0:] = [o for o in c.obls[n0:] if o not in bad]
                c.bounded.append("Spectrum.%s: histories of one earlier request only" % name)
                pairs(name)
        c.part(name, go)

    def pairs(name):
        for other in known():
            def run():
                a = obj()
                r1 = outcome(lambda: c.meth(a, name, **args(name, lo, hi)))
                o = obj()
                outcome(lambda: c.meth(o, other, **args(other, lo2, hi2)))
                return r1, outcome(lambda: c.meth(o, name, **args(name, lo, hi))), o
            ps = c.run(run, gr > 0, *base)
            for p in c.returns(name, ps):
                r1, r2, o = p.value
                same_outcome(c, "Spectrum.%s: the same answer after %s" % (name, other), p.hyps, r1, r2)
                data_unchanged("Spectrum.%s after %s" % (name, other), p.hyps, o)
    for m in known():
        any_history(m)

    def series():
        setup()
        c.use("core_spectral.spectrum2timeseries_object", lambda b: P.Opaque("series"))

        def run():
            o = obj()
            c.meth(o, "create_series", c.real("t0"), c.real("t1"), c.real("dt"))
            return o
        for p in c.returns("create_series", c.run(run, *base)):
            data_unchanged("Spectrum.create_series", p.hyps, p.value)
    c.part("create_series", series)

    def plots():
        """drawing reads the spectrum only; what it may store on the object is part of the unknown history above"""
        k = c.it.func("spectrum.Spectrum")
        for name in sorted(m for m in k.methods if m.startswith("plot")):
            names = [a.arg for a in k.methods[name].node.args.args]
            for kw in [{}] + [{b: v} for b, v in (("plot_periods", False), ("xlim", c.real("xlim"))) if b in names]:
                def run():
                    o = obj()
                    unknown_history(c, o, KEEP)
                    return outcome(lambda: c.meth(o, name, **kw)), o
                for p in c.run(run, *base):
                    if p.kind == "return":
                        data_unchanged("Spectrum.%s(%s)" % (name, ", ".join(kw)), p.hyps, p.value[1])
    c.part("plots", plots)


# ----------------------------------------------------------------------------- C16
def v_exp_(x):
    from nplib import v_exp
    return v_exp(x)


def jonswap_shape(f, fp, gam):
    """f^-5 exp(-1.25 (f/fp)^-4) gamma^exp(-(f/fp - 1)^2/(2 sigma^2)) at positive frequencies"""
    Q = T_.Fraction

    def U(i, sigma=None):
        v = f(i)
        nu = s_div(v, fp)
        sg = s_ite(lt(v, fp), Q("0.07"), Q("0.09")) if sigma is None else sigma
        d = s_sub(nu, 1)
        A = v_exp_(s_neg(s_div(s_mul(d, d), s_mul(2, s_mul(sg, sg)))))
        return s_mul(s_mul(ipow(v, -5), v_exp_(s_mul(Q("-1.25"), ipow(nu, -4)))), ipow(gam, A))
    return U


EPS = T_.Fraction(1, 2 ** 52)


def C16(c):
    n = c.n("n")
    f, df, Hf = axis(c, "f")
    fp, hm0, gam = c.real("fp"), c.real("hm0"), c.real("gamma")
    shape_ = jonswap_shape(f, fp, gam)
    U = T_.memo_clos(shape_)
    base = [n >= 2, fp > 0, hm0 >= 0, gam > 0] + Hf
    q = "core_wavefunctions.create_spectrum_jonswap"
    U0 = lambda i: s_ite(gt(f(i), EPS), U(i), 0)
    f0 = f(0)
    Q = T_.Fraction

    def energy(hi, gamma=None):
        """the spectrum has energy on the axis"""
        u = U0 if gamma is None else (lambda i: s_ite(gt(f(i), EPS), jonswap_shape(f, fp, gamma)(i), 0))
        return [mom(c, n, f0, df, u, 0, None, hi) > 0]

    def body(word, l, hi):
        def go():
            moment_contract(c)
            ps = c.run(lambda: c.call(q, c.arrf(f, n), fp, hm0, gam, l), *(base + energy(hi)))
            for p in c.returns(word, ps):
                S_ = p.value
                nm = "create_spectrum_jonswap (%s): " % word
                c.ob(nm + "one density per frequency", p.hyps, s_eq(S_.shape[0], n))
                i = fresh("i")
                hi_ = p.hyps.plus(i >= 0, lt(i, n))
                c.ob(nm + "zero at non-positive frequencies", hi_.plus(le(f(i), 0)), s_eq(S_.at(i), 0))
                c.ob(nm + "never negative", hi_, ge(S_.at(i), 0))
                K = s_div(s_mul(hm0, hm0), s_mul(16, mom(c, n, f0, df, U0, 0, None, hi)))
                for side in ("below", "from"):
                    h = hi_.plus(gt(f(i), EPS), lt(f(i), fp) if side == "below" else ge(f(i), fp))
                    c.ob(nm + "a multiple of the JONSWAP shape (%s the peak%s)" % (side, "" if side == "below" else " on"), h, s_eq(S_.at(i), s_mul(K, shape_(i, Q("0.07") if side == "below" else Q("0.09")))))
                m0 = mom(c, n, f0, df, S_.content(), 0, None, hi)
                c.ob(nm + "integrates to the requested height", p.hyps, s_eq(s_mul(16, m0), s_mul(hm0, hm0)))
        c.part("jonswap, " + word, go)

        def obj():
            moment_contract(c)
            kw = {"fmax": hi} if hi is not None else {}

            def run():
                a = c.call(q, c.arrf(f, n), fp, hm0, gam, l)
                o = c.call("core_wavefunctions.create_spectrum_object_jonswap", c.arrf(f, n), fp, hm0, gam, l)
                p = c.call("core_wavefunctions.create_spectrum_piersonmoskowitz", c.arrf(f, n), fp, hm0, l_fmax=l)
                p1 = c.call(q, c.arrf(f, n), fp, hm0, 1, l)
                po = c.call("core_wavefunctions.create_spectrum_object_piersonmoskowitz", c.arrf(f, n), fp, hm0, l_fmax=l)
                return a, o, p, p1, po, c.meth(o, "get_Hm0", **kw)
            for p in c.returns(word, c.run(run, *(base + energy(hi) + energy(hi, 1)))):
                a, o, pm, p1, po, h = p.value
                c.eqarr("create_spectrum_object_jonswap (%s): the same densities" % word, p.hyps, o.attrs["sVarDens"], n, a.content())
                c.eqarr("create_spectrum_object_jonswap (%s): the given frequencies" % word, p.hyps, o.attrs["f"], n, f)
                c.eqarr("create_spectrum_piersonmoskowitz (%s): JONSWAP with factor 1" % word, p.hyps, pm, n, p1.content())
                c.eqarr("create_spectrum_object_piersonmoskowitz (%s): the same densities" % word, p.hyps, po.attrs["sVarDens"], n, pm.content())
                c.eqarr("create_spectrum_object_piersonmoskowitz (%s): the given frequencies" % word, p.hyps, po.attrs["f"], n, f)
                c.ob("Hm0 of the spectrum object is the requested height (%s)" % word, p.hyps, s_eq(h, hm0))
        c.part("objects, " + word, obj)
    body("over the axis", 0, None)
    body("to infinity", 1, INF)

    def default():
        moment_contract(c)

        def run():
            return [c.call(q, c.arrf(f, n), fp, hm0), c.call(q, c.arrf(f, n), fp, hm0, Q("3.3"), 0), c.call(q, c.arrf(f, n), fp, hm0, gam), c.call(q, c.arrf(f, n), fp, hm0, gam, 0)]
        for p in c.returns("defaults", c.run(run, *(base + energy(None) + energy(None, Q("3.3"))))):
            a, b, d, e = p.value
            c.eqarr("the default factor is 3.3", p.hyps, a, n, b.content())
            c.eqarr("the default range is the axis", p.hyps, d, n, e.content())
    c.part("defaults", default)

    def shape():
        """the shape rises up to the peak and falls beyond it, for factors of at least one"""
        i, j, k = fresh("i"), fresh("j"), c.real("k")
        x, y = c.real("x"), c.real("y")
        E = v_exp_
        ex = E(s_sub(x, y))
        # the exponential function: addition theorem and e^t >= 1 + t (assumed of exp)
        add = s_eq(E(s_neg(y)), s_mul(E(s_neg(x)), ex))
        h = Hyps().plus(x > 0, y > 0, add, ge(ex, s_add(1, s_sub(x, y))))
        c.ob("lemma: x e^-x falls from 1 on (tangent)", h.plus(ge(y, 1), ge(x, y)), ge(s_sub(s_mul(y, s_add(1, s_sub(x, y))), x), 0))
        c.ob("lemma: x e^-x rises up to 1 (tangent)", h.plus(le(y, 1), le(x, y)), ge(s_sub(s_mul(y, s_add(1, s_sub(x, y))), x), 0))
        ea, eb, t = c.real("ea"), c.real("eb"), c.real("t")
        c.ob("lemma: x e^-x from the tangent", Hyps().plus(x > 0, y > 0, ea > 0, ge(t, s_add(1, s_sub(x, y))), ge(s_sub(s_mul(y, s_add(1, s_sub(x, y))), x), 0)),
             ge(s_mul(y, s_mul(ea, t)), s_mul(x, ea)))
        for word, side in (("rises up to the peak", -1), ("falls beyond the peak", 1)):
            a, b = c.real("fa"), c.real("fb")     # a is the frequency nearer to the peak
            na, nb = s_div(a, fp), s_div(b, fp)
            order = [b > 0, a >= b, a <= fp] if side < 0 else [a >= fp, b >= a]
            hh = Hyps().plus(fp > 0, *order)
            xa, xb = ipow(na, -4), ipow(nb, -4)
            c.ob("the density %s: (f/fp)^-4 is ordered" % word, hh, s_and(ge(xb, xa), ge(xa, 1)) if side < 0 else s_and(le(xb, xa), le(xa, 1), gt(xb, 0)))
            # g(xb) <= g(xa) by the lemma with y = xa, x = xb
            ga, gb = c.real("ga"), c.real("gb")
            # fourth power of f^-5 e^(-1.25 x) is fp^-20 (x e^-x)^5
            e1 = c.real("e1")
            c.ob("the density %s: fourth power of the Pierson-Moskowitz part" % word, Hyps().plus(fp > 0, a > 0, e1 > 0),
                 s_eq(ipow(s_mul(ipow(a, -5), ipow(e1, 5)), 4), s_mul(s_div(1, s_mul(ipow(fp, 10), ipow(fp, 10))), ipow(s_mul(ipow(s_div(a, fp), -4), ipow(e1, 4)), 5))))
            c.ob("the density %s: fourth powers keep the order" % word, Hyps().plus(ga >= 0, gb >= 0, ga * ga * ga * ga >= gb * gb * gb * gb), ga >= gb)
            c.ob("the density %s: fifth powers keep the order" % word, Hyps().plus(gb >= 0, ga >= gb), ga * ga * ga * ga * ga >= gb * gb * gb * gb * gb)
            sg = Q("0.07") if side < 0 else Q("0.09")
            A = lambda v: v_exp_(s_neg(s_div(s_mul(s_sub(v, 1), s_sub(v, 1)), s_mul(2, s_mul(sg, sg)))))
            c.ob("the density %s: the peak enhancement" % word, hh.plus(gam >= 1), ge(ipow(gam, A(na)), ipow(gam, A(nb))))
            pa, pb, qa, qb = [c.real(w) for w in ("pa", "pb", "qa", "qb")]
            c.ob("the density %s: product of the two parts" % word, Hyps().plus(pb >= 0, pa >= pb, qb >= 0, qa >= qb, k >= 0), k * (pa * qa) >= k * (pb * qb))
    c.part("rising and falling", shape)

    def reject():
        l = c.real("l")
        ps = c.run(lambda: c.call(q, c.arrf(f, n), fp, hm0, gam, l), *(base + [l != 0, l != 1]))
        c.raises("create_spectrum_jonswap: other range", ps, ("ValueError",))
    c.part("other range", reject)
    c.assume.append("exp: e^(a+b) = e^a e^b and e^t >= 1 + t; power: monotone in the exponent for bases above 1")


# ----------------------------------------------------------------------------- C24
BV = lambda k=71: T_.bvar(k)


def same_closure(a, b, dims=1):
    from terms import vkey
    ix = [BV(71 + k) for k in range(dims)]
    return vkey(a(*ix)) == vkey(b(*ix))


def normal(f):
    """the same function with its values in normal form, so that equal functions have equal names"""
    def g(i):
        v = f(i)
        return simp(v) if sym(v) else v
    return T_.memo_clos(g)


def wave_contracts(c):
    """calls of determine_zero_crossing and determine_params_individual_waves replaced by their contracts (C01, C02)"""
    known = []

    def crossing(b):
        t, x, word = b["t"], b["xTime"], b.get("typeCross", "down")
        if not (P.isarr(t) and P.isarr(x) and t.ndim == x.ndim == 1 and isinstance(word, str) and word.lower() in ("up", "down")):
            return NotImplemented
        n = t.shape[0]
        i = fresh("i")
        tf, xf = t.content(), normal(x.content())
        step = s_sub(tf(1), tf(0))
        if not (entails(c.it.hyps, s_and(s_eq(n, x.shape[0]), ge(n, 2), gt(step, 0))) and
                entails(c.it.hyps.plus(i >= 0, lt(add1(i), n)), s_eq(s_sub(tf(add1(i)), tf(i)), step))):
            return NotImplemented
        p, g = crossing_spec(tf, xf, n, word.lower() == "down")
        cnt = CNT(s_sub(n, 1), p)
        if c.it.decide(gt(cnt, 0)):
            tc = T_.memo_clos(lambda r: g(NTH(r, p)))
            known.append((tf, tc, cnt))
            return (s_sub(cnt, 1), c.it.new_arr((cnt,), tc, "f"))
        return (0, c.it.new_arr((0, 0), lambda i, j: 0, "f"))

    def waves(b):
        tc, t, x = b["tCross"], b["t"], b["xTime"]
        if not all(P.isarr(v) for v in (tc, t, x)):
            return NotImplemented
        if tc.ndim == 2 and all(not sym(d) and d == 0 for d in tc.shape):
            return tuple(c.it.new_arr((0, 0), lambda i, j: 0, "f") for _ in range(6))
        if not (tc.ndim == t.ndim == x.ndim == 1):
            return NotImplemented
        n = t.shape[0]
        tf, xf, cf = t.content(), x.content(), tc.content()
        # the precondition (increasing crossing times, no empty stretch) is that of crossings found on the same axis: lemma "stretch"
        if not entails(c.it.hyps, s_eq(n, x.shape[0])) or not any(same_closure(tf, a) and same_closure(cf, b) for a, b, _ in known):
            return NotImplemented
        m = tc.shape[0]
        w6 = wave_functionals(tf, xf, cf, n, m)
        return tuple(c.it.new_arr((s_sub(m, 1),), f, "f") for f in w6)
    c.use("core_time.determine_zero_crossing", crossing)
    c.use("core_time.determine_params_individual_waves", waves)


def wave_functionals(t, x, tc, n, m):
    """the six numbers of a wave, specified in C02"""
    mk = lambda k: T_.memo_clos(lambda w: T_.functional("WAVE%d" % k, (w, n, m), [((m,), tc), ((n,), t), ((n,), x)], RS))
    return [mk(k) for k in range(6)]


def filter_contract(c):
    """bandpassfilter as a function of its arguments (specified in C09)"""
    def f(b):
        t, x, lo, hi = b["t"], b["xTime"], b["flow"], b["fhigh"]
        if not (P.isarr(t) and P.isarr(x) and t.ndim == x.ndim == 1) or isinstance(lo, float) or isinstance(hi, float):
            return NotImplemented
        if not entails(c.it.hyps, s_eq(t.shape[0], x.shape[0])):
            return NotImplemented
        tf, xf = t.content(), x.content()
        return c.it.new_arr((t.shape[0],), band_functional(tf, xf, t.shape[0], lo, hi), "f")
    c.use("core_spectral.bandpassfilter", f)


def band_functional(t, x, n, lo, hi):
    return T_.memo_clos(lambda i: T_.functional("BANDPASS", (i, n, R(lo), R(hi)), [((n,), t), ((n,), x)], RS))


def stretch_lemma(c):
    """crossings found on an axis are in increasing order and every stretch between two of them holds a sample"""
    n, r = c.n("st_n"), c.n("st_r")
    x = c.fn("st_x")
    t, dt, Ht = axis(c, "st_t")
    for down in (True, False):
        p, g = crossing_spec(t, x, n, down)
        cnt = CNT(s_sub(n, 1), p)
        tc = T_.memo_clos(lambda r: g(NTH(r, p)))
        a, b = stretch(t, n, tc)
        w = "down" if down else "up"
        k, k2 = NTH(r, p), NTH(s_add(r, 1), p)
        h = Hyps().plus(n >= 2, r >= 0, lt(r + 1, cnt), *Ht)
        c.ob("lemma stretch (%s): crossing times lie in their intervals" % w, Hyps().plus(n >= 2, r >= 0, lt(r, cnt), *Ht), s_and(ge(tc(r), t(k)), le(tc(r), t(add1(k))), le(0, k), lt(k, s_sub(n, 1))))
        iv = [s_and(ge(tc(j), t(kk)), le(tc(j), t(add1(kk))), le(0, kk), lt(kk, s_sub(n, 1))) for j, kk in ((r, k), (s_add(r, 1), k2))]
        c.ob("lemma stretch (%s): in increasing order" % w, h, lt(tc(r), tc(s_add(r, 1))))
        c.ob("lemma stretch (%s): a first sample" % w, h.plus(*iv), le(a(r), add1(k)))
        c.ob("lemma stretch (%s): a last sample" % w, h.plus(*iv), ge(b(r), k2))
        c.ob("lemma stretch (%s): not empty" % w, h, le(add1(k), k2))


def C24(c):
    n = c.n("n")
    t, dt, Ht = axis(c, "t")
    x = c.fn("x")
    H = [n >= 2] + Ht
    c.part("stretches", lambda: stretch_lemma(c))

    def mk():
        return c.call("series.Series", c.arrf(t, n), c.arrf(x, n))

    def record_kept(nm, p, o):
        for a, f, w in (("time", t, "axis"), ("xTime", x, "samples")):
            v = o.attrs.get(a)
            if v is None:
                c.fail("%s: %s held unchanged" % (nm, w), "no attribute %s" % a)
            else:
                c.eqarr("%s: %s held unchanged" % (nm, w), p.hyps, v, n, f)

    def waves_of(p, y, down, least):
        """(number of crossings, number of waves kept, original index of the k-th wave kept, the six numbers)"""
        pr, g = crossing_spec(t, normal(y), n, down)
        cnt = CNT(s_sub(n, 1), pr)
        tc = T_.memo_clos(lambda r: g(NTH(r, pr)))
        w6 = wave_functionals(t, x, tc, n, cnt)
        m = s_ite(gt(cnt, 0), s_sub(cnt, 1), 0)
        keep_ = T_.memo_clos(lambda w: ge(w6[0](w), 0 if least is None else least))
        return cnt, CNT(m, keep_), T_.memo_clos(lambda k: NTH(k, keep_)), w6

    def ob(name, h, goal, m, keep_, k=None):
        """without a minimum: no wave is left out (lemma "kept")"""
        if keep_ is None or S.prove(h, goal):
            if keep_ is not None:
                c.obls.append({"name": name, "status": "proved"})
            return keep_ is not None or c.ob(name, h, goal)
        ex = [s_eq(CNT(m, keep_), m)] + ([] if k is None else [S.imp(s_and(ge(k, 0), lt(k, m)), s_eq(NTH(k, keep_), k))])
        return c.ob(name, h.plus(*ex), goal)

    def lists(nm, p, vals, cnt, N, ix, w6, least):
        m, keep_ = s_ite(gt(cnt, 0), s_sub(cnt, 1), 0), (None if least else T_.memo_clos(lambda w: ge(w6[0](w), 0)))
        for v, f, w in zip(vals, w6, WAVE_NAMES):
            if not P.isarr(v):
                c.fail("%s: %s" % (nm, w), repr(v))
                continue
            if v.ndim == 2:
                c.ob("%s: no %s without waves" % (nm, w), p.hyps, s_and(s_eq(N, 0), s_eq(c.it.lib.size(v), 0)))
                continue
            if v.ndim != 1:
                c.fail("%s: %s: one-dimensional" % (nm, w), repr(v))
                continue
            i = fresh("i")
            ob("%s: %s: length" % (nm, w), p.hyps, s_eq(v.shape[0], N), m, keep_)
            ob("%s: %s: elements" % (nm, w), p.hyps.plus(i >= 0, lt(i, N), lt(i, m)), s_eq(v.at(i), f(ix(i))), m, keep_, i)

    def kept():
        """a minimum that every wave reaches (heights are not negative, C02) leaves out no wave"""
        q, m, k = c.fn("kp", z3.BoolSort()), c.n("kp_m"), c.n("kp_k")
        st = lambda b: s_eq(CNT(b, q), b)
        c.ob("lemma kept: base", Hyps(), st(0))
        c.ob("lemma kept: step", Hyps().plus(m >= 0, q(m), st(m)), st(m + 1))
        j = NTH(k, q)
        c.ob("lemma kept: places", Hyps().plus(k >= 0, lt(k, m), st(m), s_eq(CNT(m, q), m), S.imp(s_and(ge(j, 0), le(j, m)), st(j))), s_eq(j, k))
    c.part("no minimum", kept)

    def creation():
        wave_contracts(c)
        cnt, N, ix, w6 = waves_of(None, x, True, None)
        for p in c.returns("creation", c.run(mk, *H)):
            o = p.value
            record_kept("creation", p, o)
            c.ob("creation: number of samples", p.hyps, s_eq(o.attrs["nt"], n))
            c.ob("creation: time step", p.hyps, s_eq(o.attrs["dt"], dt))
            ob("creation: number of waves", p.hyps, s_eq(o.attrs["nwave"], N), s_ite(gt(cnt, 0), s_sub(cnt, 1), 0), lambda w: ge(w6[0](w), 0))
            lists("creation", p, [o.attrs["hwave"], o.attrs["twave"]], cnt, N, ix, w6, False)
    c.part("creation", creation)

    def anew(word, cutoff, least):
        def go():
            wave_contracts(c)
            filter_contract(c)
            fc, mn = c.real("fc"), c.real("hmin")
            kw, HH = {}, []
            if word is not None:
                kw["typeCross"] = word
            y = x
            if cutoff:
                kw["fcutoff"] = fc
                HH.append(fc > 0)
                low = band_functional(t, x, n, 0, fc)
                y = T_.memo_clos(lambda i: s_sub(x(i), low(i)))
            if least:
                kw["minimum_wave"] = mn
            down = (word or "down").lower() == "down"

            def run():
                o = mk()
                return o, c.meth(o, "_determine_individual_waves", **kw)
            nm = "anew (%s%s%s)" % (word or "default", ", cut-off" if cutoff else "", ", minimum" if least else "")
            for p in c.returns(nm, c.run(run, *(H + HH))):
                o, r = p.value
                cnt, N, ix, w6 = waves_of(p, y, down, mn if least else None)
                record_kept(nm, p, o)
                ob(nm + ": number of waves", p.hyps, s_eq(o.attrs["nwave"], N), s_ite(gt(cnt, 0), s_sub(cnt, 1), 0), None if least else (lambda w: ge(w6[0](w), 0)))
                lists(nm + ", held", p, [o.attrs["hwave"], o.attrs["twave"]], cnt, N, ix, w6, least)
                r = list(getattr(r, "items", r))
                lists(nm + ", returned", p, r[:6], cnt, N, ix, w6, least)
        c.part("anew %s %s %s" % (word, cutoff, least), go)
    for word in (None, "down", "up", "UP", "Down"):
        for cutoff in (False, True):
            for least in (False, True):
                if word in ("UP", "Down") and cutoff != least:
                    continue
                anew(word, cutoff, least)

    def stats():
        wave_contracts(c)
        filter_contract(c)
        mean = s_div(SUM(n, x), n)
        dev = lambda k: SUM(n, lambda i: ipow(s_sub(x(i), mean), k))

        def run():
            o = mk()
            return o, [c.meth(o, m) for m in ("mean", "var", "max", "min")]
        for p in c.returns("statistics", c.run(run, *H)):
            o, (mu, va, mx, mi) = p.value
            c.ob("mean of the samples", p.hyps, s_eq(mu, mean))
            c.ob("variance of the samples", p.hyps, s_eq(va, s_div(dev(2), n)))
            c.ob("largest sample", p.hyps, s_eq(mx, x(ARGMAX(n, x))))
            c.ob("smallest sample", p.hyps, s_eq(mi, x(ARGMAX(n, lambda i: s_neg(x(i))))))
            record_kept("statistics", p, o)
    c.part("statistics", stats)

    def skew():
        wave_contracts(c)
        mean = s_div(SUM(n, x), n)
        dev = lambda k: SUM(n, lambda i: ipow(s_sub(x(i), mean), k))
        for p in c.returns("skewness", c.run(lambda: c.meth(mk(), "get_skewness"), dev(2) > 0, *H)):
            from nplib import v_pow
            c.ob("skewness of the samples", p.hyps, s_eq(p.value, s_div(s_div(dev(3), n), v_pow(s_div(dev(2), n), T_.Fraction(3, 2)))))
    c.part("skewness", skew)

    def filtered():
        wave_contracts(c)
        filter_contract(c)
        lo, hi = c.real("flo"), c.real("fhi")

        def run():
            o = mk()
            return o, c.meth(o, "get_bandpassfilter", lo, hi)
        for p in c.returns("filtered object", c.run(run, *H)):
            o, b = p.value
            record_kept("filtering", p, o)
            if not (isinstance(b, P.Inst) and b.cls is o.cls):
                c.fail("the filtered object is a time series object", repr(b))
                continue
            c.eqarr("the filtered object has the same axis", p.hyps, b.attrs["time"], n, t)
            c.eqarr("the filtered object holds the filtered samples", p.hyps, b.attrs["xTime"], n, band_functional(t, x, n, lo, hi))
    c.part("filtered object", filtered)

    def fourier():
        wave_contracts(c)

        def run():
            o = mk()
            return o, c.meth(o, "get_fourier_comp"), c.call("core_spectral.time2freq_nyquist", c.arrf(t, n), c.arrf(x, n))
        for p in c.returns("Fourier components", c.run(run, *H)):
            o, a, b = p.value
            record_kept("Fourier components", p, o)
            same_value(c, "Fourier components are those of the samples", p.hyps, a, b)
    c.part("Fourier components", fourier)

    def raw():
        wave_contracts(c)
        d = c.real("dfDesired")

        def spec(tf, xf, nn, dd):
            """the averaged spectrum of the samples (C07, C08) as a function of its arguments; its axis is uniform"""
            mk = lambda k, sort, *ix: T_.functional("RAW" + k, (*ix, nn, R(dd)), [((nn,), tf), ((nn,), xf)], sort)
            return mk("N", IS), mk("F", RS), mk("D", RS), T_.memo_clos(lambda i: mk("S", RS, i))

        def contract(b):
            tv, xv, dd = b["t"], b["xTime"], b.get("dfDesired")
            if not (P.isarr(tv) and P.isarr(xv) and tv.ndim == xv.ndim == 1) or dd is None or isinstance(dd, float) or not entails(c.it.hyps, s_eq(tv.shape[0], xv.shape[0])):
                return NotImplemented
            N, f0, df, S_ = spec(tv.content(), xv.content(), tv.shape[0], dd)
            return (c.it.new_arr((N,), lambda i: s_add(f0, s_mul(i, df)), "f"), c.it.new_arr((N,), S_, "f"))
        c.use("core_spectral.compute_spectrum_time_series", contract)
        N, f0, df, S_ = spec(t, x, n, d)

        def run():
            o = mk()
            return o, c.meth(o, "get_spectrum_raw", d)
        for p in c.returns("raw spectrum", c.run(run, d >= 0, N >= 2, df > 0, *H)):
            o, a = p.value
            record_kept("raw spectrum", p, o)
            c.eqarr("raw spectrum is that of the samples: frequencies", p.hyps, a.attrs["f"], N, lambda i: s_add(f0, s_mul(i, df)))
            c.eqarr("raw spectrum is that of the samples: densities", p.hyps, a.attrs["sVarDens"], N, S_)
    c.part("raw spectrum", raw)


# ----------------------------------------------------------------------------- C14
def wcauchy(c, n, p, x):
    """p >= 0 on 0 <= i < n (an obligation of the caller)  =>  SUM(n, p x)^2 <= SUM(n, p) SUM(n, p x^2)"""
    P_, X = c.fn("lem_p"), c.fn("lem_x")
    b = L._n("lem_b")
    A = lambda b: SUM(b, lambda i: s_mul(P_(i), X(i)))
    B_ = lambda b: SUM(b, P_)
    C = lambda b: SUM(b, lambda i: s_mul(P_(i), s_mul(X(i), X(i))))
    st = lambda a, bb, cc: s_and(le(s_mul(a, a), s_mul(bb, cc)), ge(bb, 0), ge(cc, 0))
    a, bb, cc, w, x_ = [keep(z3.Real("lem_" + s)) for s in "abcwx"]
    sq_ = (bb * x_ - a) * (bb * x_ - a)
    L._prove(c, "weighted-cauchy", [
        ("base", Hyps(), st(A(0), B_(0), C(0))),
        ("algebra, positive", Hyps().plus(bb > 0, cc >= 0, a * a <= bb * cc, sq_ >= 0), bb * (2 * a * x_) <= bb * (bb * x_ * x_ + cc)),
        ("algebra, division", Hyps().plus(bb > 0, bb * (2 * a * x_) <= bb * (bb * x_ * x_ + cc)), 2 * a * x_ <= bb * x_ * x_ + cc),
        ("algebra, zero", Hyps().plus(bb == 0, cc >= 0, a * a <= bb * cc), 2 * a * x_ <= bb * x_ * x_ + cc),
        ("algebra, step", Hyps().plus(w >= 0, bb >= 0, cc >= 0, a * a <= bb * cc, w * (2 * a * x_) <= w * (bb * x_ * x_ + cc)), (a + w * x_) * (a + w * x_) <= (bb + w) * (cc + w * x_ * x_)),
        ("algebra, signs", Hyps().plus(w >= 0, bb >= 0, cc >= 0, w * x_ * x_ >= 0), s_and(bb + w >= 0, cc + w * x_ * x_ >= 0)),
        ("sums", Hyps().plus(b >= 0), s_and(s_eq(A(b + 1), s_add(A(b), s_mul(P_(b), X(b)))), s_eq(B_(b + 1), s_add(B_(b), P_(b))), s_eq(C(b + 1), s_add(C(b), s_mul(P_(b), s_mul(X(b), X(b)))))))])
    g = [SUM(n, lambda i: s_mul(p(i), x(i))), SUM(n, p), SUM(n, lambda i: s_mul(p(i), s_mul(x(i), x(i))))]
    return S.imp(ge(n, 0), le(s_mul(g[0], g[0]), s_mul(g[1], g[2])))


def C14(c):
    n = c.n("n")
    f, df, Hf = axis(c, "f")
    f0 = f(0)
    s = c.fn("S")
    lo, hi = c.real("fmin"), c.real("fmax")
    last = f(s_sub(n, 1))
    pos = Univ(0, n, lambda i: ge(s(i), 0))
    W = lambda N, i: keep(S.SIMPW(I(N), I(i)))

    def band_of(which):
        kw = {}
        if "l" in which:
            kw["fmin"] = lo
        if "h" in which:
            kw["fmax"] = hi
        a, b = (lo if "l" in which else f0), (hi if "h" in which else last)
        i0, i1 = nearest(n, f, a) if "l" in which else 0, nearest(n, f, b) if "h" in which else s_sub(n, 1)
        N = s_add(s_sub(i1, i0), 1)
        H = [n >= 2, f0 > 0] + Hf + [ge(N, 2)]
        if "l" in which:
            H += [lo >= f0, lo <= last]
        if "h" in which:
            H += [hi >= f0, hi <= last]
        if which == "lh":
            H.append(hi > lo)
        return kw, a, b, i0, i1, N, H

    def g(i0, m):
        return lambda i: s_mul(ipow(f(s_add(i0, i)), m), s(s_add(i0, i)))

    def weighted(N, q):
        """Simpson's rule on N samples as a sum with its weights"""
        return s_mul(df, SUM(N, lambda i: s_mul(W(N, i), q(i))))

    def moments(which):
        """the code computes Simpson's rule over the samples of the band; the other parts reason about that rule as a weighted sum"""
        def go():
            kw, a, b, i0, i1, N, H = band_of(which)
            for m in (-1, 0, 1, 2):
                val = moment_spec(f, df, s, n, m, kw.get("fmin"), kw.get("fmax"), False)[0][1]
                ps = c.run(lambda: c.call("core_wavefunctions.compute_moment", c.arrf(f, n), c.arr("S", n), m, **kw), *H)
                for p in c.returns("compute_moment", ps):
                    c.ob("compute_moment, order %d (%s): Simpson's rule over the samples of the band" % (m, which or "no limits"), p.hyps, s_eq(p.value, val))
        c.part("moments %s" % which, go)

    def sign():
        N, a = c.n("N"), c.n("a")
        for m in (-1, 0, 1, 2):
            H = Hyps().plus(n >= 2, f0 > 0, *Hf).plus(N >= 2, a >= 0, le(s_add(a, N), n), pos, Univ(0, N, lambda i: gt(W(N, i), 0)))
            c.ob("moments of order %d are not negative" % m, H, ge(weighted(N, g(a, m)), 0))
    c.part("not negative", sign)

    def order():
        N, a = c.n("N"), c.n("a")
        base = Hyps().plus(n >= 2, f0 > 0, *Hf).plus(N >= 2, a >= 0, le(s_add(a, N), n))
        M = lambda m: SUM(N, lambda i: s_mul(W(N, i), g(a, m)(i)))
        i = fresh("i")
        hi_ = base.plus(i >= 0, lt(i, N), gt(W(N, i), 0), ge(s(s_add(a, i)), 0))
        fl, fh = f(a), f(s_sub(s_add(a, N), 1))
        fi = f(s_add(a, i))
        c.ob("frequencies of the samples used are positive and in the band", hi_, s_and(gt(fi, 0), ge(fi, fl), le(fi, fh), gt(fl, 0)))
        fr, wr, sr = c.real("fr"), c.real("wr"), c.real("sr")
        h1 = Hyps().plus(wr > 0, sr >= 0, fr > 0)
        for m in (-1, 0, 1):
            c.ob("weights of order %d are not negative" % m, h1, ge(s_mul(wr, s_mul(ipow(fr, m), sr)), 0))
        pw = {m: (lambda i, m=m: s_mul(W(N, i), g(a, m)(i))) for m in (-1, 0, 1, 2)}
        cs = [wcauchy(c, N, pw[0], lambda i: f(s_add(a, i))), wcauchy(c, N, pw[-1], lambda i: f(s_add(a, i)))]
        c.ob("m1^2 <= m0 m2 (Cauchy-Schwarz)", base.plus(cs[0]), le(s_mul(M(1), M(1)), s_mul(M(0), M(2))))
        frw = lambda i: f(s_add(a, i))
        # f^-1 f = 1 and f^-1 f^2 = f on the samples used
        hp = base.plus(Univ(0, N, lambda i: gt(frw(i), 0)))
        c.ob("m-1 from its weights", hp, s_eq(SUM(N, lambda i: s_mul(pw[-1](i), frw(i))), M(0)))
        c.ob("m-1 from its weights, squared", hp, s_eq(SUM(N, lambda i: s_mul(pw[-1](i), s_mul(frw(i), frw(i)))), M(1)))
        c.ob("m0^2 <= m-1 m1 (Cauchy-Schwarz)", base.plus(cs[1], s_eq(SUM(N, lambda i: s_mul(pw[-1](i), frw(i))), M(0)), s_eq(SUM(N, lambda i: s_mul(pw[-1](i), s_mul(frw(i), frw(i)))), M(1))), le(s_mul(M(0), M(0)), s_mul(M(-1), M(1))))
        # bounds
        for nm, m, k, bound, sgn in (("m-1 <= m0 / lowest frequency", -1, 0, lambda: s_div(1, fl), le), ("m2 <= m0 (highest frequency)^2", 2, 0, lambda: s_mul(fh, fh), le)):
            u, v = pw[m], (lambda i, k=k, bound=bound: s_mul(bound(), pw[k](i)))
            flr, fhr = c.real("flr"), c.real("fhr")
            hh = Hyps().plus(wr > 0, sr >= 0, fr > 0, flr > 0, fr >= flr, fr <= fhr)
            if m == -1:
                c.ob(nm + ": 1/f", hh, le(s_div(1, fr), s_div(1, flr)))
                c.ob(nm + ": each sample", hh.plus(le(s_div(1, fr), s_div(1, flr))), le(s_mul(wr, s_mul(s_div(1, fr), sr)), s_mul(s_div(1, flr), s_mul(wr, sr))))
            else:
                c.ob(nm + ": f^2", hh, le(fr * fr, fhr * fhr))
                c.ob(nm + ": each sample", hh.plus(fr * fr <= fhr * fhr), le(s_mul(wr, s_mul(fr * fr, sr)), s_mul(fhr * fhr, s_mul(wr, sr))))
    c.part("order of the moments", order)

    def periods():
        N, a = c.n("N"), c.n("a")
        m_ = {k: keep(z3.Real("m%s" % str(k).replace("-", "_"))) for k in (-1, 0, 1, 2)}
        fl, fh = c.real("fl"), c.real("fh")
        H = Hyps().plus(m_[0] > 0, m_[1] > 0, m_[2] > 0, m_[-1] > 0, fl > 0, fh >= fl, m_[1] * m_[1] <= m_[0] * m_[2], m_[0] * m_[0] <= m_[-1] * m_[1], m_[-1] <= m_[0] / fl, m_[2] <= fh * fh * m_[0])
        t10, t01, t02 = s_div(m_[-1], m_[0]), s_div(m_[0], m_[1]), v_sqrt_(s_div(m_[0], m_[2]))
        c.ob("Tm02 <= Tm01: squares", H, le(s_mul(m_[0], s_mul(m_[1], m_[1])), s_mul(m_[0], s_mul(m_[0], m_[2]))))
        c.ob("Tm02 <= Tm01", H.plus(le(s_div(m_[0], m_[2]), s_mul(t01, t01)), t01 > 0, t02 >= 0), le(t02, t01))
        c.ob("m0/m2 <= (m0/m1)^2", H, le(s_div(m_[0], m_[2]), s_mul(t01, t01)))
        c.ob("Tm01 <= Tm-1,0", H, le(t01, t10))
        c.ob("Tm-1,0 is at most the inverse of the lowest frequency", H, le(t10, s_div(1, fl)))
        c.ob("Tm02 is at least the inverse of the highest frequency", H.plus(ge(s_div(m_[0], m_[2]), s_div(1, fh * fh))), ge(t02, s_div(1, fh)))
        c.ob("m0/m2 >= 1/(highest frequency)^2", H, ge(s_div(m_[0], m_[2]), s_div(1, fh * fh)))
    c.part("order of the periods", periods)

    def wiring(which, small):
        """the requests of the object and of the function are these quotients of these moments"""
        def go():
            moment_contract(c)
            c.use("core_wavefunctions.compute_tps", tps_functional)
            kw, a, b, i0, i1, N, H = band_of(which)
            M = {k: mom(c, n, f0, df, s, k, a, b) for k in (-1, 0, 1, 2)}

            def run():
                o = c.call("spectrum.Spectrum", c.arrf(f, n), c.arrf(s, n))
                return [c.meth(o, k, **kw) for k in ("get_Tmm10", "get_Tm01", "get_Tm02")], c.call("core_wavefunctions.compute_spectrum_params", c.arrf(f, n), c.arrf(s, n), **kw)
            big = ge(s_mul(4, v_sqrt_(M[0])), T_.Fraction(1, 10 ** 6))
            k = c.n("k")                                  # the band has samples of its own
            H += [k >= 0, k < n, ge(f(k), a), le(f(k), b)]
            for p in c.returns("mean periods", c.run(run, M[0] > 0, M[1] > 0, M[2] > 0, M[-1] > 0, big, *H)):
                o, r = p.value
                for v, w, k, e in zip(o, list(r)[3:6], ("Tm-1,0", "Tm01", "Tm02"), (s_div(M[-1], M[0]), s_div(M[0], M[1]), v_sqrt_(s_div(M[0], M[2])))):
                    c.ob("%s of the object (%s)" % (k, which or "no limits"), p.hyps, s_eq(v, e))
                    c.ob("%s of the function (%s)" % (k, which or "no limits"), p.hyps, s_eq(w, e))
        c.part("periods of the code %s" % which, go)
    for w in ("", "l", "h", "lh"):
        moments(w)
        wiring(w, False)


# ----------------------------------------------------------------------------- C17
def C17(c):
    n, j = c.n("n"), c.n("j")
    f, df, Hf = axis(c, "f")
    f0 = f(0)
    s = c.fn("S")
    q = "core_wavefunctions.compute_tps"
    base = [f0 > 0, j >= 0, j < n, ge(s(j), T_.Fraction(1, 10 ** 10))] + Hf
    other = Univ(0, n, lambda i: s_or(s_eq(i, j), lt(s(i), s(j))))

    def top(i):
        """top of the parabola through samples i-1, i, i+1"""
        a, b, d = s(s_sub(i, 1)), s(i), s(add1(i))
        return s_add(f(i), s_div(s_mul(df, s_sub(a, d)), s_mul(2, s_add(s_sub(a, s_mul(2, b)), d))))

    other2 = Univ(0, n, lambda i: s_or(s_eq(i, j), s_eq(i, add1(j)), lt(s(i), s(j))))

    def tps():
        return c.call(q, c.arrf(f, n), c.arrf(s, n))

    MX = ARGMAX(n, s)
    at_max = lambda i: s_eq(s(i), s(MX))

    def places(k, *extra):
        """which samples hold the highest density"""
        H = Hyps().plus(n >= 3, other if k == 1 else other2, *base).plus(*extra)
        if k == 2:
            H = H.plus(s_eq(s(add1(j)), s(j)), j < n - 1)
        c.ob("highest sample (%d)" % k, H, s_eq(s(MX), s(j)))
        H = H.plus(s_eq(s(MX), s(j)))
        return H.plus(*L.unique(c, "highest sample (%d)" % k, H, n, at_max, j, k)).items

    def inner():
        ps = c.run(tps, *places(1, j >= 1, j < n - 1))
        for p in c.returns("smoothed peak period, peak inside", ps):
            c.ob("smoothed peak period, peak inside: inverse of the top of the parabola", p.hyps, s_eq(p.value, s_div(1, top(j))))
    c.part("inner", inner)

    def half():
        a, b, d = c.real("a"), c.real("b"), c.real("d")
        c.ob("the top lies within half a spacing of the highest sample", Hyps().plus(b > a, b > d, df > 0), s_and(le(s_div(s_mul(df, s_sub(a, d)), s_mul(2, s_add(s_sub(a, s_mul(2, b)), d))), s_div(df, 2)), ge(s_div(s_mul(df, s_sub(a, d)), s_mul(2, s_add(s_sub(a, s_mul(2, b)), d))), s_neg(s_div(df, 2)))))
    c.part("half", half)

    def edge(low):
        e = [s_eq(j, 0)] if low else [s_eq(j, s_sub(n, 1))]
        a, b = (f0, f(2)) if low else (f(s_sub(n, 3)), f(s_sub(n, 1)))
        w = "lower" if low else "upper"
        for p in c.returns("peak at the %s edge" % w, c.run(tps, *places(1, *e))):
            c.ob("peak at the %s edge: a frequency of the three samples there" % w, p.hyps, s_and(ge(p.value, s_div(1, b)), le(p.value, s_div(1, a))))
    c.part("lower edge", lambda: edge(True))
    c.part("upper edge", lambda: edge(False))

    def pair():
        for p in c.returns("two equal neighbours", c.run(tps, *places(2, j < n - 1))):
            c.ob("two equal neighbours: the frequency midway", p.hyps, s_eq(p.value, s_div(1, s_add(f(j), s_div(df, 2)))))
    c.part("pair", pair)

    lo, hi = c.real("fmin"), c.real("fmax")

    def band_of(which):
        kw = {}
        if "l" in which:
            kw["fmin"] = lo
        if "h" in which:
            kw["fmax"] = hi
        a, b = (lo if "l" in which else f0), (hi if "h" in which else f(s_sub(n, 1)))
        H = [n >= 3, f0 > 0] + Hf + [s_not(s_eq(v, -1)) for v in kw.values()]
        return kw, a, b, H

    def peak(which):
        """Tp of the object and of the function"""
        kw, a, b, H = band_of(which)
        inb = lambda i: s_and(ge(f(i), a), le(f(i), b))
        H += [j >= 0, j < n, inb(j), Univ(0, n, lambda i: s_or(s_not(inb(i)), lt(s(i), s(j)), s_and(le(s(i), s(j)), le(i, j))))]
        w = {"": "no limits", "l": "lower limit", "h": "upper limit", "lh": "both limits"}[which]

        def obj():
            c.use("core_wavefunctions.compute_tps", tps_functional)
            o = c.call("spectrum.Spectrum", c.arrf(f, n), c.arrf(s, n))
            return c.meth(o, "get_Tp", **kw)
        for p in c.returns("peak period of the object, %s" % w, c.run(obj, *H)):
            c.ob("peak period of the object, %s: inverse frequency of the highest sample" % w, p.hyps, s_eq(p.value, s_div(1, f(j))))

        moment_contract(c)
        big = ge(s_mul(4, v_sqrt_(mom(c, n, f0, df, s, 0, a, b))), T_.Fraction(1, 10 ** 6))

        def fun():
            c.use("core_wavefunctions.compute_tps", tps_functional)
            return c.call("core_wavefunctions.compute_spectrum_params", c.arrf(f, n), c.arrf(s, n), **kw)
        for p in c.returns("peak period of the function, %s" % w, c.run(fun, big, *[mom(c, n, f0, df, s, k, a, b) > 0 for k in (-1, 0, 1, 2)], *H)):
            c.ob("peak period of the function, %s: inverse frequency of the highest sample" % w, p.hyps, s_eq(p.value[1], s_div(1, f(j))))

    def smooth(which):
        """Tps of the object and of the function is compute_tps of the samples in the band"""
        kw, a, b, H = band_of(which)
        w = {"": "no limits", "l": "lower limit", "h": "upper limit", "lh": "both limits"}[which]
        k0, k1 = c.n("k0"), c.n("k1")
        H += [k0 >= 0, k0 <= k1, k1 < n, ge(f(k0), a), le(f(k1), b), s_or(s_eq(k0, 0), lt(f(s_sub(k0, 1)), a)), s_or(s_eq(k1, n - 1), gt(f(add1(k1)), b))]
        N = s_add(s_sub(k1, k0), 1)
        want = T_.functional("TPS", (N,), [((N,), lambda i: f(s_add(k0, i))), ((N,), lambda i: s(s_add(k0, i)))], RS)

        def obj():
            c.use("core_wavefunctions.compute_tps", tps_functional)
            o = c.call("spectrum.Spectrum", c.arrf(f, n), c.arrf(s, n))
            return c.meth(o, "get_Tps", **kw)
        for p in c.returns("smoothed peak period of the object, %s" % w, c.run(obj, *H)):
            c.ob("smoothed peak period of the object, %s: that of the samples in the band" % w, p.hyps, s_eq(p.value, want))
        moment_contract(c)
        big = ge(s_mul(4, v_sqrt_(mom(c, n, f0, df, s, 0, a, b))), T_.Fraction(1, 10 ** 6))

        def fun():
            c.use("core_wavefunctions.compute_tps", tps_functional)
            return c.call("core_wavefunctions.compute_spectrum_params", c.arrf(f, n), c.arrf(s, n), **kw)
        for p in c.returns("smoothed peak period of the function, %s" % w, c.run(fun, big, *[mom(c, n, f0, df, s, k, a, b) > 0 for k in (-1, 0, 1, 2)], *H)):
            c.ob("smoothed peak period of the function, %s: that of the samples in the band" % w, p.hyps, s_eq(p.value[2], want))
    for w in ("", "l", "h", "lh"):
        c.part("peak %s" % w, lambda w=w: peak(w))
        c.part("smoothed peak %s" % w, lambda w=w: smooth(w))


# ----------------------------------------------------------------------------- C21
def analyses(c):
    """name -> call of an analysis of (axis, values)"""
    lo, hi, d, nt = c.real("lo"), c.real("hi"), c.real("d"), c.n("nt")
    R_ = {
        "time2freq": lambda a, v: c.call("core_spectral.time2freq", a, v),
        "time2freq_nyquist": lambda a, v: c.call("core_spectral.time2freq_nyquist", a, v),
        "compute_spectrum_time_series": lambda a, v: c.call("core_spectral.compute_spectrum_time_series", a, v),
        "compute_spectrum_time_series (resolution)": lambda a, v: c.call("core_spectral.compute_spectrum_time_series", a, v, d),
        "compute_spectrum_freq_series": lambda a, v: c.call("core_spectral.compute_spectrum_freq_series", a, v, nt),
        "bandpassfilter": lambda a, v: c.call("core_spectral.bandpassfilter", a, v, lo, hi),
        "compute_moment, order 0": lambda a, v: c.call("core_wavefunctions.compute_moment", a, v, 0),
        "compute_moment, order -1": lambda a, v: c.call("core_wavefunctions.compute_moment", a, v, -1),
        "compute_moment, order 2, limits": lambda a, v: c.call("core_wavefunctions.compute_moment", a, v, 2, fmin=lo, fmax=hi),
        "compute_spectrum_params": lambda a, v: c.call("core_wavefunctions.compute_spectrum_params", a, v),
        "compute_spectrum_params, limits": lambda a, v: c.call("core_wavefunctions.compute_spectrum_params", a, v, fmin=lo, fmax=hi),
        "Spectrum": lambda a, v: c.call("spectrum.Spectrum", a, v),
    }
    return R_


def C21(c):
    n, m, j, k = c.n("n"), c.n("m"), c.n("j"), c.n("k")
    a, v = c.fn("a"), c.fn("v")
    tol = T_.Fraction(1, 10 ** 9)
    st = lambda i: s_sub(a(i), a(s_sub(i, 1)))
    bad = {
        "an axis that does not increase at some place": [j >= 1, j < n, le(a(j), a(s_sub(j, 1)))],
        "an axis with some step too large": [j >= 2, j < n, ge(s_sub(st(j), st(1)), tol)],
        "an axis with some step too small": [j >= 2, j < n, ge(s_sub(st(1), st(j)), tol)],
    }
    A = analyses(c)

    def rejected(nm, f, word, mk, *H):
        def g():
            c.raises("%s: %s" % (nm, word), c.run(lambda: f(*mk()), *H))
        c.part("%s: %s" % (nm, word), g)
    vec = lambda: (c.arr("a", n), c.arr("v", n))
    for nm, f in A.items():
        for word, H in bad.items():
            rejected(nm, f, word, vec, n >= 2, *H)
        rejected(nm, f, "values of another length", lambda: (c.arr("a", n), c.arr("v", m)), n >= 2, m >= 1, s_not(s_eq(n, m)))
        if nm != "Spectrum":
            rejected(nm, f, "an axis of several columns", lambda: (c.arr("a2", n, k), c.arr("v", n)), n >= 2, k >= 2)
            rejected(nm, f, "values of several columns", lambda: (c.arr("a", n), c.arr("v2", n, k)), n >= 2, k >= 2)
            rejected(nm, f, "an axis and values of several columns", lambda: (c.arr("a2", n, k), c.arr("v2", n, k)), n >= 2, k >= 2)

    def recognised():
        fx, df, Hf = axis(c, "x")
        ps = c.run(lambda: c.it.truth(c.call("core_engine.monotonic_increasing_constant_step", c.arrf(fx, n))), n >= 2, *Hf)
        for p in c.returns("uniform axis", ps):
            c.ob("a uniform increasing axis is recognised", p.hyps, p.value)
        for word, H in bad.items():
            for p in c.returns(word, c.run(lambda: c.it.truth(c.call("core_engine.monotonic_increasing_constant_step", c.arr("a", n))), n >= 2, *H)):
                c.ob("%s is recognised" % word, p.hyps, s_not(p.value))
    c.part("recognised", recognised)

    # wave lists
    w = c.fn("w")
    wv = {
        "determine_zero_crossing": lambda: c.call("core_time.determine_zero_crossing", c.arr("a", n), c.arr("v", m)),
        "determine_params_individual_waves": lambda: c.call("core_time.determine_params_individual_waves", c.arr("tc", k), c.arr("a", n), c.arr("v", m)),
        "sort_wave_params": lambda: c.call("core_time.sort_wave_params", c.arr("a", n), c.arr("v", m)),
        "highest_waves_params": lambda: c.call("core_time.highest_waves_params", c.arr("a", n), c.arr("v", m), c.real("p")),
    }
    for nm, f in wv.items():
        rejected(nm, lambda f=f: f(), "values of another length", lambda: (), n >= 1, m >= 1, k >= 2, s_not(s_eq(n, m)))
    fx, df, Hf = axis(c, "x")
    for nm, f in A.items():
        def ok(nm=nm, f=f):
            lo, hi = c.real("lo"), c.real("hi")
            H = [n >= 2, fx(0) > 0, lo >= 0, lo <= fx(s_sub(n, 1)), hi > lo, lo != -1, hi != -1, c.real("d") >= 0, c.n("nt") >= 2] + Hf
            if "params" in nm:
                moment_contract(c)
                c.use("core_wavefunctions.compute_tps", tps_functional)
                H += [mom(c, n, fx(0), df, v, q, *((lo, hi) if "limits" in nm else ())) > 0 for q in (-1, 0, 1, 2)]
                kk = c.n("kk")
                H += [kk >= 0, kk < n, ge(fx(kk), lo), le(fx(kk), hi)]
            ps = c.run(lambda: f(c.arrf(fx, n), c.arr("v", n)), *H)
            c.returns("%s: uniform axis accepted" % nm, ps)
            if all(p.kind == "return" for p in ps):
                c.obls.append({"name": "%s: a uniform axis is accepted on every path" % nm, "status": "proved"})
        c.part("%s accepted" % nm, ok)


# ----------------------------------------------------------------------------- C22
FORMS = {"a": "array", "l": "list", "c": "column"}


def C22(c):
    n = c.n("n")
    a_, v_ = c.fn("a"), c.fn("v")
    fx, df, Hf = axis(c, "x")
    t0 = [n >= 2] + Hf
    fr = [n >= 2, fx(0) > 0] + Hf
    lo, hi, d, fp, hm, gam, g = [c.real(k) for k in ("lo", "hi", "d", "fp", "hm0", "gamma", "g")]
    nt, seed = c.n("nt"), c.n("seed")

    def given(form, fn, dtype="f"):
        if form == "c":
            return c.it.new_arr((n, 1), lambda i, j: fn(i), dtype)
        x = c.it.new_arr((n,), fn, dtype)
        return P.SymList(x) if form == "l" else x

    def kept(name, h, form, o, fn):
        """the argument still holds what it held"""
        if form == "l":
            if not P.isarr(o.arr) or o.arr.ndim != 1:
                c.ob(name, h, False)
                return
            o = o.arr
        sh = (n, 1) if form == "c" else (n,)
        if o.ndim != len(sh):
            c.ob(name, h, False)
            return
        c.ob(name + ": size", h, s_and(*[s_eq(p, q) for p, q in zip(o.shape, sh)]))
        i = fresh("i")
        c.eqv(name, h.plus(i >= 0, lt(i, n)), o.at(*((i, 0) if form == "c" else (i,))), fn(i))

    def flat(x):
        """a column counts as the array of its values"""
        if isinstance(x, (tuple, P.PList)):
            return tuple(flat(y) for y in getattr(x, "items", x))
        if isinstance(x, P.SymList):
            return x.arr
        if P.isarr(x) and x.ndim == 2:
            if any(not sym(d) and d == 0 for d in x.shape):
                return c.it.new_arr((0,), lambda i: 0, x.dtype)
            if not sym(x.shape[1]) and x.shape[1] == 1:
                return c.it.new_arr((x.shape[0],), lambda i: x.at(i, 0), x.dtype)
        if P.isarr(x) and x.ndim == 1 and not sym(x.shape[0]) and x.shape[0] == 1:
            return x.at(0)
        if P.isarr(x) and x.ndim == 0:
            return x.at()
        return x

    def setup():
        moment_contract(c)
        c.use("core_wavefunctions.compute_tps", tps_functional)

    def alike(name, f, forms, hyps, ax=fx, vals=v_, cplx=False, prep=None):
        vals = c.cfn("z") if cplx else vals
        dt = "c" if cplx else "f"

        def go(form):
            def run():
                if prep:
                    prep()
                out = []
                for k in ("a", form):
                    A, V = given(k, ax), given(k, vals, dt)
                    out.append((outcome(lambda: f(A, V)), A, V))
                return out
            ps = c.run(run, *hyps)
            if not any(p.kind == "return" and p.value[0][0][0] == "return" and S.consistent(p.hyps) for p in ps):
                c.fail("%s: reachable" % name, "no call returns: %s" % sorted({str(p.value) for p in ps if p.kind != "return"} | {str(p.value[0][0]) for p in ps if p.kind == "return"})[:3])
            for p in ps:
                if p.kind != "return":
                    continue
                (r0, A0, V0), (r1, A1, V1) = p.value
                for k, A, V in (("a", A0, V0), (form, A1, V1)):
                    kept("%s: the axis is unchanged (%s)" % (name, FORMS[k]), p.hyps, k, A, ax)
                    kept("%s: the values are unchanged (%s)" % (name, FORMS[k]), p.hyps, k, V, vals)
                if r0[0] != r1[0]:
                    c.ob("%s: a result for an array and for a %s" % (name, FORMS[form]), p.hyps, False)
                elif r0[0] == "return":
                    same_value(c, "%s: the same for an array and a %s" % (name, FORMS[form]), p.hyps, flat(r0[1]), flat(r1[1]))
        for form in forms:
            c.part("%s (%s)" % (name, FORMS[form]), lambda form=form: go(form))

    S_ = lambda q: (lambda *a, **k: c.call(q, *a, **k))
    sp, wf, ct, en = "core_spectral.", "core_wavefunctions.", "core_time.", "core_engine."
    alike("time2freq", lambda a, v: c.call(sp + "time2freq", a, v), "lc", t0)
    alike("time2freq_nyquist", lambda a, v: c.call(sp + "time2freq_nyquist", a, v), "lc", t0)
    alike("compute_spectrum_time_series", lambda a, v: c.call(sp + "compute_spectrum_time_series", a, v, d), "lc", t0 + [d >= 0])
    alike("bandpassfilter", lambda a, v: c.call(sp + "bandpassfilter", a, v, lo, hi), "lc", t0 + [lo >= 0, hi > lo])
    alike("freq2time", lambda a, v: c.call(sp + "freq2time", v), "lc", t0, cplx=True)
    alike("compute_spectrum_freq_series", lambda a, v: c.call(sp + "compute_spectrum_freq_series", a, v, nt, d), "lc", fr + [nt >= 2, d >= 0], cplx=True)
    alike("frequency_averaging", lambda a, v: c.call(sp + "frequency_averaging", a, v, d), "lc", fr + [d >= 0])
    for odd in (True, False):
        alike("unfold_spectrum, %s" % ("odd" if odd else "even"), lambda a, v, odd=odd: c.call(sp + "unfold_spectrum", a, v, odd), "lc", fr, cplx=True)
    alike("spectrum2timeseries", lambda a, v: c.call(sp + "spectrum2timeseries", a, v, 0, hi, d, seed), "lc", fr + [d > 0, hi > d, seed >= 0])
    for m in (-1, 0, 1, 2):
        alike("compute_moment, order %d" % m, lambda a, v, m=m: c.call(wf + "compute_moment", a, v, m, fmin=lo, fmax=hi), "lc", fr + [lo >= 0, hi > lo])
    alike("compute_spectrum_params", lambda a, v: c.call(wf + "compute_spectrum_params", a, v, fmin=lo, fmax=hi), "lc", fr + [lo >= 0, hi > lo, lo <= fx(s_sub(n, 1))], prep=setup)
    alike("compute_tps", lambda a, v: c.call(wf + "compute_tps", a, v), "lc", fr)
    alike("tpd", lambda a, v: c.call(wf + "tpd", a, v), "lc", fr, prep=setup)
    alike("create_spectrum_jonswap", lambda a, v: c.call(wf + "create_spectrum_jonswap", a, fp, hm, gam), "lc", fr + [fp > 0, hm > 0, gam > 0])
    alike("create_spectrum_piersonmoskowitz", lambda a, v: c.call(wf + "create_spectrum_piersonmoskowitz", a, fp, hm), "lc", fr + [fp > 0, hm > 0])

    def spectrum(a, v):
        o = c.call("spectrum.Spectrum", a, v)
        return (o.attrs["f"], o.attrs["sVarDens"]) + tuple(c.meth(o, k, fmin=lo, fmax=hi) for k in ("get_Hm0", "get_Tp", "get_Tps", "get_Tmm10", "get_Tm01", "get_Tm02"))
    alike("Spectrum", spectrum, "lc", fr + [lo >= 0, hi > lo, lo != -1, hi != -1], prep=setup)
    desc = [Univ(0, s_sub(n, 1), lambda i: ge(v_(i), v_(add1(i))))]
    alike("highest_waves_params", lambda a, v: c.call(ct + "highest_waves_params", v, a, d), "l", [n >= 1, d >= 0, d <= 1] + desc, ax=a_)
    alike("exceedance_wave_height", lambda a, v: c.call(ct + "exceedance_wave_height", v, d), "l", [n >= 1, d >= 0, d <= 100] + desc, ax=a_)
    alike("sort_wave_params", lambda a, v: c.call(ct + "sort_wave_params", v, a), "l", [n >= 1], ax=a_)
    alike("determine_zero_crossing", lambda a, v: c.call(ct + "determine_zero_crossing", a, v), "l", t0)
    alike("disper", lambda a, v: c.call("core_dispersion.disper", a, d, g), "l", [n >= 1, d > 0, g > 0, Univ(0, n, lambda i: ge(a_(i), 0))], ax=a_)

    def more_args(f, *extra):
        """further array arguments keep their contents too"""
        def g(A, V):
            form = "l" if isinstance(A, P.SymList) else "c" if A.ndim == 2 else "a"
            xs = [given(form, fn, dt) for fn, dt in extra]
            r = f(A, V, *xs)
            i = fresh("i")
            for x, (fn, dt) in zip(xs, extra):
                kept("%s argument" % "further", c.it.hyps, form, x, fn)
            return r
        return g
    z2 = c.cfn("z2")
    alike("coherence", more_args(lambda a, v, w: c.call(sp + "coherence", a, v, w, d), (z2, "c")), "c", fr + [d > 0], cplx=True)
    alike("applybandfilter", lambda a, v: c.call(sp + "applybandfilter", a, v, lo, hi), "a", fr, cplx=True)
    tc, m = c.fn("tc"), c.n("m")

    def individual():
        def run():
            out = []
            for k in "al":
                args = [c.it.new_arr((m,), tc, "f"), c.it.new_arr((n,), a_, "f"), c.it.new_arr((n,), v_, "f")]
                args = [P.SymList(x) for x in args] if k == "l" else args
                out.append((outcome(lambda: c.call(ct + "determine_params_individual_waves", *args)), args))
            return out
        for p in c.returns("individual waves", c.run(run, n >= 2, m >= 2, *wave_hyps(a_, n, tc, m))):
            (r0, x0), (r1, x1) = p.value
            same_outcome(c, "determine_params_individual_waves: the same for arrays and lists", p.hyps, r0, r1)
            for xs in (x0, x1):
                for x, fn, k in zip(xs, (tc, a_, v_), (m, n, n)):
                    c.eqarr("determine_params_individual_waves: arguments are unchanged", p.hyps, x, k, fn)
    c.part("individual waves", individual)

    def welch():
        for p in c.run(lambda: (lambda x: (outcome(lambda: c.call(sp + "compute_spectrum_welch_wrapper", x, d)), x))(c.arr("v", n)), n >= 2, d > 0):
            if p.kind == "return":
                c.eqarr("compute_spectrum_welch_wrapper: the values are unchanged", p.hyps, p.value[1], n, v_)
    c.part("welch", welch)

    def zs():
        X = c.fn("X", dims=2)
        xl, wl = c.fn("xl"), c.fn("wl")
        def run():
            args = [c.it.new_arr((n,), fx, "f"), c.it.new_arr((n, m), X, "f"), c.it.new_arr((m,), xl, "f"), c.it.new_arr((m,), wl, "f")]
            zs_contracts(c)
            return outcome(lambda: c.call("core_wave_decomposition.decompose_linear_ZS", args[0], args[1], c.real("h"), args[2], args[3])), args
        for p in c.returns("reflection analysis", c.run(run, m >= 2, c.real("h") > 0, *t0)):
            r, xs = p.value
            for x, fn, k, w in zip(xs, (fx, None, xl, wl), (n, n, m, m), ("axis", "signals", "positions", "weights")):
                if fn is not None:
                    c.eqarr("decompose_linear_ZS: the %s are unchanged" % w, p.hyps, x, k, fn)
                else:
                    i, j = fresh("i"), fresh("j")
                    c.ob("decompose_linear_ZS: the signals are unchanged: size", p.hyps, s_and(s_eq(x.shape[0], n), s_eq(x.shape[1], m)))
                    c.ob("decompose_linear_ZS: the signals are unchanged", p.hyps.plus(i >= 0, lt(i, n), j >= 0, lt(j, m)), s_eq(x.at(i, j), X(i, j)))
    c.part("reflection analysis", zs)

    def series(a, v):
        o = c.call("series.Series", a, v)
        return (o.attrs["time"], o.attrs["xTime"], o.attrs["hwave"], o.attrs["twave"]) + tuple(c.meth(o, k) for k in ("mean", "var", "max", "min", "get_Hrms", "get_Hmax"))

    def waves(a, v):
        o = c.call("series.WaveHeights", v, a)
        return (o.attrs["hwave"], o.attrs["twave"], c.meth(o, "get_Hrms"), c.meth(o, "get_Hmax"), c.meth(o, "get_Hs"))

    def ser_setup():
        wave_contracts(c)
    alike("Series", series, "lc", t0, prep=ser_setup)
    alike("WaveHeights", waves, "l", [n >= 1], ax=a_)


# ----------------------------------------------------------------------------- C19
def zs_contracts(c):
    """transforms and dispersion as functions of their arguments (specified in C06, C07, C18)"""
    def t2f(b):
        t, x = b["t"], b["xTime"]
        if not (P.isarr(t) and P.isarr(x) and t.ndim == x.ndim == 1) or not c.pre("time2freq_nyquist: equal lengths", s_eq(t.shape[0], x.shape[0])):
            return NotImplemented
        ax = affine_of(c, t)
        if ax is None:
            return NotImplemented
        n = t.shape[0]
        nf = fold(n)
        X = nyq(x.content(), n)
        df = s_div(1, s_mul(n, ax[1]))
        return c.it.new_arr((nf,), lambda k: s_mul(k, df), "f"), c.it.new_arr((nf,), X, "c"), s_eq(s_sub(n, s_mul(2, s_floor(s_div(n, 2)))), 1)
    c.use("core_spectral.time2freq_nyquist", t2f)

    def disper(b):
        w = b["w"]
        if not P.isarr(w) or w.ndim != 1 or isinstance(b["h"], float):
            return NotImplemented
        f = w.content()
        return c.it.new_arr((w.shape[0],), lambda k: wavenumber(f(k), b["h"], b["g"]), "f")
    c.use("core_dispersion.disper", disper)

    def unfold(b):
        f, X = b["f"], b["xFreq"]
        if not (P.isarr(f) and P.isarr(X)):
            return NotImplemented
        g = X.content() if X.ndim == 1 else (lambda k: X.at(k, 0)) if not sym(X.shape[1]) and X.shape[1] == 1 else None
        if g is None:
            return NotImplemented
        nf = X.shape[0]
        odd = b["isOdd"]
        N = s_ite(odd, s_sub(s_mul(2, nf), 1), s_sub(s_mul(2, nf), 2)) if sym(odd) else s_sub(s_mul(2, nf), 1 if odd else 2)
        return None, Unfolded(g, nf, N)
    c.use("core_spectral.unfold_spectrum", unfold)

    def f2t(b):
        X = b["xFreq"]
        if not isinstance(X, Unfolded):
            return NotImplemented
        r = c.it.new_arr((X.N,), inverse(X.g, X.nf, X.N), "f")
        SPECTRUM[id(r)] = (r, X)  # ghost state: the transform of which this is the signal
        return r
    c.use("core_spectral.freq2time", f2t)


SPECTRUM = {}


class Unfolded:
    """result of unfold_spectrum under its contract"""
    def __init__(self, g, nf, N):
        self.g, self.nf, self.N = g, nf, N


def nyq(x, n):
    """folded transform of a signal"""
    mk = lambda nm: (lambda k: T_.functional(nm, (k, n), [((n,), T_.memo_clos(x))], RS))
    return T_.memo_clos(lambda k: Cx(mk("NYQ_RE")(k), mk("NYQ_IM")(k)))


def inverse(X, nf, N):
    """the real signal of N samples with the given folded transform"""
    return T_.memo_clos(lambda i: T_.functional("INVERSE", (i, nf, N), [((nf,), T_.memo_clos(lambda k: cx(X(k)).re)), ((nf,), T_.memo_clos(lambda k: cx(X(k)).im))], RS))


WAVENUMBER = z3.Function("WAVENUMBER", RS, RS, RS, RS)


def wavenumber(w, h, g):
    return keep(WAVENUMBER(*[T_.canon(R(v)) for v in (w, h, g)]))


T_.ELEM_BUILD["WAVENUMBER"] = wavenumber


def C19(c):
    n, m = c.n("n"), c.n("m")
    t, dt, Ht = axis(c, "t")
    X = c.fn("X", dims=2)
    xl, wl = c.fn("xl"), c.fn("wl")
    h, lim = c.real("h"), c.real("lim")
    q = "core_wave_decomposition.decompose_linear_ZS"
    good = [m >= 2, n >= 2, h > 0, Univ(0, m, lambda j: s_and(ge(wl(j), 0), le(wl(j), 1))), gt(SUM(m, wl), 1), Univ(0, s_sub(m, 1), lambda j: lt(xl(j), xl(add1(j))))] + Ht

    def zs():
        return c.call(q, c.arrf(t, n), c.arrf(X, n, m), h, c.arrf(xl, m), c.arrf(wl, m), lim)

    nf = fold(n)
    G_ = T_.Fraction("9.81")
    PI = T_.PI
    v_cos, v_sin = (lambda a: T_.trig(a)[0]), (lambda a: T_.trig(a)[1])

    def K(k):
        return wavenumber(s_mul(s_mul(2, PI), s_div(k, s_mul(n, dt))), h, G_)

    def spec(Z):
        """incident and reflected part at every frequency, by weighted least squares over the gauges: Z(k, j) is the transform at gauge j"""
        d = lambda j: s_sub(xl(j), xl(0))
        cis = lambda a: Cx(v_cos(a), v_sin(a))

        def total(f):
            """weighted sum over the gauges of a complex number"""
            return Cx(SUM(m, lambda j: s_mul(wl(j), cx(f(j)).re)), SUM(m, lambda j: s_mul(wl(j), cx(f(j)).im)))

        def parts(k):
            ph = lambda j: s_mul(K(k), d(j))
            up, dn = total(lambda j: cis(s_mul(2, ph(j)))), total(lambda j: cis(s_neg(s_mul(2, ph(j)))))
            b1, b2 = total(lambda j: v_mul(Z(k, j), cis(s_neg(ph(j))))), total(lambda j: v_mul(Z(k, j), cis(ph(j))))
            W = SUM(m, wl)
            det = v_sub(v_mul(dn, up), s_mul(W, W))
            return det, v_sub(v_mul(up, b1), v_mul(W, b2)), v_sub(v_mul(dn, b2), v_mul(W, b1))

        def pick(q):
            def g(k):
                det, a, b = parts(k)
                det = cx(det)
                r = cx(v_div((a, b)[q], det))
                used = gt(v_abs(det), s_mul(4, lim))
                return Cx(s_ite(used, r.re, 0), s_ite(used, r.im, 0))
            return T_.memo_clos(g)
        return pick(0), pick(1), parts

    def body():
        zs_contracts(c)
        ps = c.run(zs, *good)
        Z = lambda k, j: nyq(lambda i: X(i, j), n)(k)
        inc, ref, _ = spec(Z)
        for p in c.returns("decomposition", ps):
            for v, w, e in zip(p.value, ("incident", "reflected"), (inc, ref)):
                U = SPECTRUM.get(id(v), (0, None))[1]
                if U is None:
                    c.unsupported.append("the %s wave is not the result of freq2time" % w)
                    continue
                c.eqarr("the %s wave is the signal of its parts at all frequencies" % w, p.hyps, v, n, inverse(U.g, U.nf, U.N))
                c.ob("one %s part for every frequency" % w, p.hyps, s_and(s_eq(U.nf, nf), s_eq(U.N, n)))
                k = fresh("k")
                c.eqv("the %s part is the weighted least-squares solution" % w, p.hyps.plus(k >= 0, lt(k, nf)), U.g(k), e(k))
    c.part("decomposition", body)

    def exact():
        I_, R_ = Cx(c.real("I_re"), c.real("I_im")), Cx(c.real("R_re"), c.real("R_im"))
        k = c.n("k")
        ph = lambda k, j: s_mul(K(k), s_sub(xl(j), xl(0)))
        cis = lambda a: Cx(v_cos(a), v_sin(a))
        two = lambda k, j: v_add(v_mul(I_, cis(s_neg(ph(k, j)))), v_mul(R_, cis(ph(k, j))))
        det, a, b = spec(two)[2](k)
        H = Hyps().plus(m >= 2, k >= 0, *Ht)
        c.eqv("an incident and a reflected wave: the incident numerator is the incident wave times the determinant", H, a, v_mul(I_, det))
        c.eqv("an incident and a reflected wave: the reflected numerator is the reflected wave times the determinant", H, b, v_mul(R_, det))
        c.ob("the wave at the first gauge is the sum of both", H, s_and(s_eq(cx(two(k, 0)).re, s_add(I_.re, R_.re)), s_eq(cx(two(k, 0)).im, s_add(I_.im, R_.im))))
    c.part("exact", exact)

    def linear():
        mk = lambda s: (lambda f, g: (lambda k, j: Cx(f(k, j), g(k, j))))(c.fn("Zr" + s, dims=2), c.fn("Zi" + s, dims=2))
        Z1, Z2, al = mk("1"), mk("2"), c.real("al")
        k = c.n("k")
        H = Hyps().plus(m >= 2, k >= 0, *Ht)
        p1, p2, p3 = (spec(Z)[2](k) for Z in (Z1, Z2, lambda k, j: v_add(Z1(k, j), v_mul(al, Z2(k, j)))))
        for q_, w in ((1, "incident"), (2, "reflected")):
            c.eqv("the %s part is linear in the signals" % w, H, p3[q_], v_add(p1[q_], v_mul(al, p2[q_])))
        c.eqv("the determinant does not depend on the signals", H, p3[0], p1[0])
    c.part("linear", linear)

    j = c.n("j")
    t2, n2, m2, m3 = c.fn("t2"), c.n("n2"), c.n("m2"), c.n("m3")
    rej = [
        ("weights below 0", [j >= 0, j < m, wl(j) < 0], None),
        ("weights above 1", [j >= 0, j < m, wl(j) > 1], None),
        ("weights with a sum of at most 1", [m >= 1, le(SUM(m, wl), 1)], None),
        ("gauges not in increasing order", [j >= 0, j < m - 1, ge(xl(j), xl(add1(j)))], None),
        ("one gauge", [s_eq(m, 1)], None),
        ("another number of positions", [m2 >= 1, s_not(s_eq(m2, m))], (n, m2, m)),
        ("another number of weights", [m3 >= 1, s_not(s_eq(m3, m))], (n, m, m3)),
        ("another number of time levels", [n2 >= 1, s_not(s_eq(n2, n))], (n2, m, m)),
    ]
    for what, hy, dims in rej:
        def f(what=what, hy=hy, dims=dims):
            zs_contracts(c)
            a, b, d = dims or (n, m, m)
            # every other requirement is left open: whatever else is wrong, the input is rejected
            ps = c.run(lambda: c.call(q, c.arrf(t2, a), c.arrf(X, n, m), h, c.arrf(xl, b), c.arrf(wl, d), lim), n >= 1, m >= 1, *hy)
            c.raises(what, ps)
        c.part(what, f)

    def series():
        # bounded: two and three gauges
        for g in (2, 3):
            xs = [c.fn("x%d" % i) for i in range(g)]
            A_, B_ = c.fn("A"), c.fn("B")
            seen = []

            def dec(b):
                seen[:] = [b]
                return c.it.new_arr((n,), A_, "f"), c.it.new_arr((n,), B_, "f")

            def init(b):
                # a series object holds its time axis and signal (C24)
                b["self"].attrs["time"], b["self"].attrs["xTime"] = b["time"], b["xTime"]

            def run(g=g, xs=xs):
                c.use(q, dec)
                c.use("series.Series.__init__", init)
                obs = [c.call("series.Series", c.arrf(t, n), c.arrf(x, n)) for x in xs]
                pos, wgt = c.arrf(xl, g), c.arrf(wl, g)
                seen[:] = []
                r = c.call(q + "_series", P.PList(obs), h, pos, wgt, lim)
                return r, list(seen), pos, wgt
            c.bounded.append("series objects: %d gauges" % g)
            nm = "series objects of %d gauges" % g
            for p in c.returns(nm, c.run(run, n >= 2, h > 0, *Ht)):
                r, cl, pos, wgt = p.value
                if len(cl) != 1:
                    c.fail(nm + ": one reflection analysis", "%d calls" % len(cl))
                    continue
                b = cl[0]
                c.eqarr(nm + ": the time axis is passed on", p.hyps, b["t"], n, t)
                Xa = b["xTime"]
                if not (P.isarr(Xa) and Xa.ndim == 2):
                    c.unsupported.append(nm + ": no matrix of signals")
                    continue
                c.ob(nm + ": one column per gauge", p.hyps, s_and(s_eq(Xa.shape[0], n), s_eq(Xa.shape[1], g)))
                i = fresh("i")
                for k in range(g):
                    c.ob(nm + ": signal %d is column %d" % (k, k), p.hyps.plus(i >= 0, lt(i, n)), s_eq(Xa.at(i, k), xs[k](i)))
                c.eqarr(nm + ": the positions are passed on", p.hyps, b["x_loc"], g, xl)
                c.eqarr(nm + ": the weights are passed on", p.hyps, b["w_loc"], g, wl)
                c.ob(nm + ": depth and limit are passed on", p.hyps, s_and(s_eq(b["h"], h), s_eq(b["detLim"], lim)))
                for v, w, f in zip(r, ("incident", "reflected"), (A_, B_)):
                    c.eqarr("%s: the %s series has the time axis" % (nm, w), p.hyps, v.attrs["time"], n, t)
                    c.eqarr("%s: the %s series holds the %s wave" % (nm, w, w), p.hyps, v.attrs["xTime"], n, f)
    c.part("series", series)

    def holds():
        wave_contracts(c)
        x = c.fn("x")
        for p in c.returns("a series object", c.run(lambda: c.call("series.Series", c.arrf(t, n), c.arrf(x, n)), n >= 2, *Ht)):
            c.eqarr("a series object holds its time axis", p.hyps, p.value.attrs["time"], n, t)
            c.eqarr("a series object holds its signal", p.hyps, p.value.attrs["xTime"], n, x)
    c.part("a series object holds its arguments", holds)


# ----------------------------------------------------------------------------- C23
def C23(c):
    """the call of the underlying estimator (contract of scipy.signal.welch: Welch's estimate for its arguments) and what is done with its results"""
    n = c.n("n")
    t, dt, Ht = axis(c, "t")
    x = c.fn("x")
    seg, ovl, nfft, dfd = c.n("seg"), c.n("ovl"), c.n("nfft"), c.real("dfd")
    base = [n >= 2, seg >= 0, ovl >= 0, nfft >= 0, dfd > 0] + Ht
    half = T_.Fraction(1, 2)

    def near(a, b):
        """the integer a is b rounded (either way for a tie)"""
        return s_and(le(s_sub(a, b), half), ge(s_sub(a, b), s_neg(half)))

    def whole(v):
        return not sym(v) and T_.Fraction(v).denominator == 1 or sym(v) and v.sort() == IS

    def given(nm, p, what, v, g):
        """an argument of which zero means the default"""
        if v is None:
            c.ob("%s: the default %s only for zero" % (nm, what), p.hyps, s_eq(g, 0))
        else:
            c.ob("%s: the %s is passed on" % (nm, what), p.hyps, s_and(s_eq(v, g), s_not(s_eq(g, 0))))

    def common(nm, p, calls, window, step, signal=True):
        if len(calls) != 1:
            c.fail(nm + ": one estimate", "%d calls of the estimator" % len(calls))
            return None
        _w, b, f, s = calls[0]
        if not P.isarr(b["x"]) or b["x"].ndim != 1:
            c.unsupported.append(nm + ": the signal is not a vector")
            return None
        c.eqarr(nm + ": the whole signal is used", p.hyps, b["x"], n, x)
        c.ob(nm + ": sampling frequency", p.hyps, s_eq(b["fs"], s_div(1, step)))
        for k, v in (("detrend", ("constant",)), ("return_onesided", (True,)), ("scaling", ("density",)), ("axis", (-1, 0)), ("average", ("mean",)), ("window", (window,))):
            if sym(b[k]):
                c.fail("%s: %s" % (nm, k), "depends on the input")
            elif b[k] in v:
                c.obls.append({"name": "%s: %s" % (nm, k), "status": "proved"})
            else:
                c.fail("%s: %s" % (nm, k), "%r" % (b[k],))
        return b, f, s

    def holds(nm, p, F, S, f, s):
        for w, v, e in (("frequencies", F, f), ("densities", S, s)):
            if not (P.isarr(v) and v.ndim == 1):
                c.unsupported.append("%s: %s are no vector" % (nm, w))
                continue
            c.eqarr("%s: exactly the %s of the estimate" % (nm, w), p.hyps, v, e.shape[0], e.content())

    for win in (None, "hann", "boxcar", "hamming"):
        kw = {} if win is None else {"windows_type": win}
        tag = "default window" if win is None else win

        def res(kw=kw, win=win, tag=tag):
            nm = "at a resolution, " + tag

            def run():
                wave_contracts(c)
                o = c.call("series.Series", c.arrf(t, n), c.arrf(x, n))
                c.it.lib.calls.clear()
                r = c.meth(o, "get_spectrum", nperseg=seg, noverlap=ovl, nfft=nfft, dfDesired=dfd, use_dfDesired=True, **kw)
                return r, list(c.it.lib.calls)
            q = s_div(1, s_mul(dt, dfd))
            for p in c.returns(nm, c.run(run, gt(q, half), *base)):
                r, calls = p.value
                got = common(nm, p, calls, win or "hann", dt)
                if got is None:
                    continue
                b, f, s = got
                L_, O = b["nperseg"], b["noverlap"]
                if L_ is None:
                    c.ob(nm + ": a segment length", p.hyps, False)
                    continue
                if not whole(L_):
                    c.unsupported.append(nm + ": the segment length is not an integer")
                    continue
                c.ob(nm + ": the segments have the rounded length", p.hyps, near(L_, q))
                if O is None:
                    O = s_floor(s_div(L_, 2))  # the default of the estimator
                if not whole(O):
                    c.unsupported.append(nm + ": the overlap is not an integer")
                    continue
                c.ob(nm + ": the segments overlap by half", p.hyps, near(O, s_div(L_, 2)))
                given(nm, p, "transform length", b["nfft"], nfft)
                holds(nm, p, r.attrs["f"], r.attrs["sVarDens"], f, s)
        c.part("resolution " + tag, res)

        def own(kw=kw, win=win, tag=tag):
            nm = "with own segments, " + tag

            def run():
                wave_contracts(c)
                o = c.call("series.Series", c.arrf(t, n), c.arrf(x, n))
                c.it.lib.calls.clear()
                r = c.meth(o, "get_spectrum", nperseg=seg, noverlap=ovl, nfft=nfft, dfDesired=dfd, use_dfDesired=False, **kw)
                return r, list(c.it.lib.calls)
            for p in c.returns(nm, c.run(run, *base)):
                r, calls = p.value
                got = common(nm, p, calls, win or "hann", dt)
                if got is None:
                    continue
                b, f, s = got
                given(nm, p, "segment length", b["nperseg"], seg)
                given(nm, p, "overlap", b["noverlap"], ovl)
                given(nm, p, "transform length", b["nfft"], nfft)
                holds(nm, p, r.attrs["f"], r.attrs["sVarDens"], f, s)
        c.part("own segments " + tag, own)

        def wrap(win=win, tag=tag):
            nm = "the wrapper, " + tag
            step = c.real("step")

            def run():
                c.it.lib.calls.clear()
                kw = {} if win is None else {"window_type": win}
                r = c.it.call(c.it.func("core_spectral.compute_spectrum_welch_wrapper"), [c.arrf(x, n), step], {"nperseg": seg, "noverlap": ovl, "nfft": nfft, **kw})
                return r, list(c.it.lib.calls)
            for p in c.returns(nm, c.run(run, step > 0, *base)):
                r, calls = p.value
                got = common(nm, p, calls, win or "hann", step)
                if got is None:
                    continue
                b, f, s = got
                given(nm, p, "segment length", b["nperseg"], seg)
                given(nm, p, "overlap", b["noverlap"], ovl)
                given(nm, p, "transform length", b["nfft"], nfft)
                holds(nm, p, r[0], r[1], f, s)
        c.part("wrapper " + tag, wrap)

    def defaults():
        """without arguments: a resolution of 0.01"""
        def run():
            wave_contracts(c)
            o = c.call("series.Series", c.arrf(t, n), c.arrf(x, n))
            c.it.lib.calls.clear()
            r = c.meth(o, "get_spectrum")
            return r, list(c.it.lib.calls)
        q = s_div(100, dt)
        for p in c.returns("without arguments", c.run(run, gt(q, half), *base)):
            r, calls = p.value
            got = common("without arguments", p, calls, "hann", dt)
            if got is None or not whole(got[0]["nperseg"]):
                continue
            c.ob("without arguments: the segments have the rounded length", p.hyps, near(got[0]["nperseg"], q))
            holds("without arguments", p, r.attrs["f"], r.attrs["sVarDens"], got[1], got[2])
    c.part("defaults", defaults)


# ----------------------------------------------------------------------------- C20
def plain(t, names):
    """what a condition says about its monomials: comparisons of conditional numbers as conditions, everything that is not linear under a name"""
    if not sym(t) or not z3.is_bool(t) or not z3.is_app(t):
        return t
    k = t.decl().kind()
    if k in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR):
        ch = [plain(v, names) for v in t.children()]
        return s_not(ch[0]) if k == z3.Z3_OP_NOT else (s_and if k == z3.Z3_OP_AND else s_or)(*ch)
    if k == z3.Z3_OP_LE and t.arg(0).sort() == RS:
        a, b = t.children()
        for u, f in ((a, lambda v: v <= b), (b, lambda v: a <= v)):
            if z3.is_app_of(u, z3.Z3_OP_ITE):
                g = plain(u.arg(0), names)
                return s_or(s_and(g, plain(f(u.arg(1)), names)), s_and(s_not(g), plain(f(u.arg(2)), names)))
        n, d = T_.ratio(keep(b - a))
        r = z3.RealVal(0)
        for m, v in n.items():
            x = T_.canon(keep(T_.p_term({m: T_.Fraction(1)}) / T_.p_term(d)))
            if not z3.is_rational_value(x):
                x = names.setdefault(x.get_id(), z3.Real("part!%d" % len(names)))
            r = r + R(v) * x
        return keep(0 <= r)
    return t


def C20(c):
    """partial correctness: whatever the last iteration of the search is, its results are what is returned"""
    S.FORK[0] = True
    s, e, t, tol = c.real("s"), c.real("e"), c.real("t"), c.real("tol")
    n = c.n("n")
    q = "core_wavefunctions.compute_BattjesGroenendijk_wave_height_distribution"
    fr = T_.Fraction
    # the inputs are written in the root of m0, e = 3.24 s / depth and the normalised transition height t, which cover all of them
    hm0, d = s_mul(4, s), s_div(s_mul(fr("3.24"), s), e)
    r = s_add(fr("2.69"), e)
    gam = s_div(s_mul(s_mul(t, e), r), fr("3.24"))
    cot = s_div(fr("5.8"), s_sub(gam, fr("0.35")))
    base = [s > 0, e > 0, t > 0, gt(gam, fr("0.35")), n >= 2, tol > 0, tol < 1]
    rms = s_mul(s, r)
    Htr = s_mul(t, rms)
    lnn = T_.u_log(n)

    def run(*kw):
        return c.call(q, hm0, n, d, cot, tol)

    def guess(L_):
        """the constant scale height that goes with an exponent L_, from one value of the input"""
        try:
            m = [(v, z3.RealVal(k)) for v, k in ((s, 1), (e, 1), (t, 2), (tol, fr(1, 10)))]
            val = lambda v: z3.simplify(z3.substitute(T_.R(v), *m))
            q_ = z3.simplify(val(s_mul(t, t)) / val(L_))
            q_ = fr(q_.numerator_as_long(), q_.denominator_as_long())
            r = fr(math.isqrt(q_.numerator), math.isqrt(q_.denominator))
            return [r] if r * r == q_ else []
        except Exception:
            return []

    def rayleigh():
        for p in c.returns("Rayleigh distributed waves", c.run(run, gt(t, fr("2.75")), *base)):
            for v, w in zip(p.value, ("heights", "probabilities")):
                c.ob("Rayleigh distributed waves: no %s" % w, p.hyps, P.isarr(v) and any(not sym(k) and k == 0 for k in v.shape))
    c.part("Rayleigh", rayleigh)

    def points(pre, *where):
        ps = c.run(run, le(t, fr("2.75")), *where, *base)
        for p in c.returns("three points", ps):
            H, Pr = p.value
            h = p.hyps
            c.ob(pre + "three heights and probabilities", h, all(P.isarr(v) and v.ndim == 1 and not sym(v.shape[0]) and v.shape[0] == 3 for v in (H, Pr)))
            P1 = Pr.at(1)
            c.ob(pre + "the first height is zero", h, s_eq(H.at(0), 0))
            c.ob(pre + "the first probability is one", h, s_eq(Pr.at(0), 1))
            c.ob(pre + "the second height is the transition height", h, s_eq(H.at(1), Htr))
            c.ob(pre + "the last probability is 1/n", h, s_eq(Pr.at(2), s_div(1, n)))
            # the unknowns of the result: the state before the last iteration of the search
            ins = {str(v) for v in (s, e, t, tol, n)}
            free = [v for v in consts(P1) if str(v) not in ins and v.sort() == RS]
            ended = [x for x in h.items if sym(x) and str(tol) in {str(v) for v in consts(x)}]
            h = h.plus(*[v > 0 for v in free])
            L_ = s_neg(T_.u_log(P1))
            # the normalised first scale height: a guess, of which everything below is shown
            law = lambda a: s_eq(P1, T_.u_exp(s_neg(s_div(s_mul(t, t), s_mul(a, a)))))
            cand = [w for v in free for w in (v, s_div(v, rms))] or guess(L_)
            a = next((w for w in cand if entails(h, law(w))), cand[0] if cand else 1)
            c.ob(pre + "the second probability is that of the first Weibull distribution", h, law(a))
            X = s_div(s_mul(t, t), s_mul(a, a))
            c.ob(pre + "all probabilities are positive and at most one", h, s_and(gt(T_.u_exp(s_neg(X)), 0), le(T_.u_exp(s_neg(X)), 1)))
            H2 = s_div(t, T_.u_pow(s_div(t, a), fr(5, 9)))
            A2 = fr(14, 9)
            G = lambda v: c.it.lib.f_scipy_special_gamma([v], {})
            GI = lambda v, w: c.it.lib.f_scipy_special_gammainc([v, w], {})
            est = s_add(s_mul(s_mul(a, a), s_mul(GI(2, X), G(2))), s_mul(s_mul(H2, H2), s_mul(G(A2), s_sub(1, GI(A2, X)))))
            dev = s_sub(est, 1)
            norm = s_and(le(dev, tol), ge(dev, s_neg(tol)))
            names = {}
            if entails(Hyps().plus(*[plain(x, names) for x in ended]), plain(norm, names)):
                # what ended the search says it
                norm = True
            c.ob(pre + "the distribution is normalised to the prescribed root-mean-square height", h, norm)
            x1 = s_mul(s_mul(a, rms), v_sqrt_(lnn))
            x2 = s_mul(s_mul(H2, rms), T_.u_pow(lnn, fr(5, 18)))
            ray = s_mul(hm0, v_sqrt_(s_div(lnn, 2)))
            h = h.plus(lnn > 0)
            c.ob(pre + "the last height is at most the Rayleigh value", h, le(H.at(2), ray))
            xc = s_ite(lt(x1, Htr), x1, x2)
            c.ob(pre + "the last height is exceeded with probability 1/n", h, s_eq(H.at(2), s_ite(le(xc, ray), xc, ray)))
    for nm, u in (("a steep", lt(cot, 20)), ("an intermediate", s_and(ge(cot, 20), le(cot, 250))), ("a gentle", gt(cot, 250))):
        for nm2, w in (("low", lt(hm0, Htr)), ("high", ge(hm0, Htr))):
            pre = "%s slope, %s waves: " % (nm, nm2)
            c.part("points, " + pre[:-2], lambda u=u, w=w, pre=pre: points(pre, u, w))
    c.assume.append("while the search of the normalised scale height goes on, its iterate is positive")


# ----------------------------------------------------------------------------- C18
def settle_indices(t, h):
    """the conditions on indices in t, decided under h"""
    seen, todo, sub = set(), [t], []
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_bool(u) and z3.is_app(u) and u.num_args() == 2 and u.arg(0).sort() == IS:
            if entails(h, u):
                sub.append((u, z3.BoolVal(True)))
            elif entails(h, s_not(u)):
                sub.append((u, z3.BoolVal(False)))
        todo += u.children()
    return keep(z3.substitute(t, *sub)) if sub else t


def C18(c):
    import interval as V
    n = c.n("n")
    w = c.fn("w")
    h, g = c.real("h"), c.real("g")
    i = z3.Int("i")
    q = "core_dispersion.disper"
    base = [n >= 1, g > 0]
    at = [i >= 0, i < n]
    wi = w(i)

    def length(nm, p):
        k = p.value
        if not P.isarr(k):
            c.fail(nm + ": is an array", repr(k))
            return None
        c.ob(nm + ": a wave number per frequency", p.hyps, s_and(k.ndim == 1, s_eq(k.shape[0], n)))
        return k

    def deep(nm, kw):
        for p in c.returns(nm, c.run(lambda: c.call(q, c.arrf(w, n), INF, *kw), *base)):
            k = length(nm, p)
            if k is not None:
                G_ = kw[0] if kw else T_.Fraction("9.81")
                c.ob(nm + ": w^2 / g", p.hyps.plus(*at), s_eq(k.at(i), s_div(s_mul(wi, wi), G_)))
    c.part("infinite depth", lambda: deep("infinite depth", [g]))
    c.part("infinite depth, gravity omitted", lambda: deep("infinite depth, gravity omitted", []))

    def shallow(nm, kw):
        d = h
        for p in c.returns(nm, c.run(lambda: c.call(q, c.arrf(w, n), s_neg(d), *kw), d > 0, *base)):
            k = length(nm, p)
            if k is not None:
                G_ = kw[0] if kw else T_.Fraction("9.81")
                c.ob(nm + ": w / sqrt(g d)", p.hyps.plus(*at), s_eq(k.at(i), s_div(wi, v_sqrt_(s_mul(G_, d)))))
    c.part("negative depth", lambda: shallow("negative depth", [g]))
    c.part("negative depth, gravity omitted", lambda: shallow("negative depth, gravity omitted", []))

    def zero():
        for p in c.returns("a zero frequency", c.run(lambda: c.call(q, c.arrf(w, n), h, g), h > 0, *base)):
            k = length("a finite depth", p)
            if k is not None:
                z = keep(z3.substitute(T(k.at(i)), (wi, z3.RealVal(0))))
                c.ob("a zero frequency: a zero wave number", p.hyps.plus(s_eq(wi, 0), *at), s_eq(conc(settle_indices(S.renorm(z, {}), p.hyps.plus(*at))), 0))
    c.part("zero frequency", zero)

    om, y = c.real("om"), z3.Real("y")
    bound = T_.Fraction(1, 10 ** 9)

    def accurate(nm, kw, lo, hi):
        for p in c.returns(nm, c.run(lambda: c.call(q, c.arrf(w, n), h, *kw), h > 0, *base)):
            k = length(nm, p)
            if k is None:
                continue
            x = keep(z3.substitute(T(k.at(i)), (wi, om)))
            x = settle_indices(x, p.hyps.plus(*at))
            # of a frequency om and a depth h only y = om^2 h / g counts
            one = z3.RealVal(1)
            env = {om.get_id(): ((1, 0), one), h.get_id(): ((0, 1), one), g.get_id(): ((2, 1), one / y)}
            if not kw:
                # g is a number: the depth is the one that goes with y
                env = {om.get_id(): ((1,), one), h.get_id(): ((-2,), R(T_.Fraction("9.81")) * y)}
            try:
                dim, u = V.scaled(x, env)
                if tuple(dim) != ((0, -1) if kw else (2,)):
                    raise V.Cannot("the result is no wave number by its dimension")
                Q = keep(u if kw else u * R(T_.Fraction("9.81")) * y)
                ok, why, boxes = V.holds(y, keep(Q * T_.TANH(Q) / y - 1), bound, lo, hi, seconds=200 * S.SCALE[0])
            except V.Cannot as e:
                c.unsupported.append("%s: %s" % (nm, e))
                continue
            ob = nm + ": w^2 = g k tanh(k h) to 1e-9"
            if ok:
                S.count("interval")
                c.obls.append({"name": ob, "status": "proved"})
            elif ok is None:
                c.unsupported.append("%s: %s" % (ob, why))
            else:
                c.fail(ob, "w^2 h / g = %r" % why)
                for d in (10.0, 1.0, 200.0):
                    c.cases.append({"x": [(why * 9.81 / d) ** 0.5], "sc": False, "h": d, "k": "fin", "g": 9.81, "dg": not kw})
    top = 1e30
    ends = [1e-100, 1e-50, 1e-8, 0.5, 0.9975, 0.99795, 0.9985, 3, top]
    for a, b in zip(ends, ends[1:]):
        for kw, t in (([g], ""), ([], ", gravity omitted")):
            if t and (a, b) != (0.5, 0.9975) and not (a < 1e-8 < b * 10):
                continue
            nm = "w^2 h / g from %g to %g%s" % (a, b, t)
            c.part(nm, lambda nm=nm, kw=kw, a=a, b=b: accurate(nm, kw, a, b))
    c.assume.append("dispersion: w^2 h / g between 1e-100 and 1e30; elementary functions of numpy right to 16 units in the last place (interval bounds)")


# ----------------------------------------------------------------------------- C25
def HILK(n, d):
    return keep(S.HILK(I(n), I(d)))


def C25(c):
    n = c.n("n")
    t, dt, Ht = axis(c, "t")
    x = c.fn("x")
    H = [n >= 2] + Ht

    def mean(y):
        return s_div(SUM(n, y), n)

    def dev(y, k):
        mu = mean(y)
        return SUM(n, lambda i: ipow(s_sub(y(i), mu), k))

    def hil(y):
        """the imaginary part of scipy.signal.hilbert"""
        return T_.memo_clos(lambda j: S.hilbert(n, y, j))

    def third(y):
        u = hil(y)
        return SUM(n, lambda i: ipow(u(i), 3))

    def over(a, y):
        from nplib import v_pow
        return s_div(s_div(a, n), v_pow(s_div(dev(y, 2), n), T_.Fraction(3, 2)))

    def measures():
        wave_contracts(c)

        def run():
            o = c.call("series.Series", c.arrf(t, n), c.arrf(x, n))
            return o, c.meth(o, "get_skewness"), c.meth(o, "get_asymmetry")
        for p in c.returns("skewness and asymmetry", c.run(run, dev(x, 2) > 0, *H)):
            o, sk, as_ = p.value
            c.ob("skewness: third moment over the variance to the power 3/2", p.hyps, s_eq(sk, over(dev(x, 3), x)))
            c.ob("asymmetry: third moment of the Hilbert transform over the variance to the power 3/2", p.hyps, s_eq(as_, over(third(x), x)))
            for a, f, w in (("time", t, "axis"), ("xTime", x, "samples")):
                c.eqarr("%s unchanged by the requests" % w, p.hyps, o.attrs[a], n, f)
    c.part("the measures of the code", measures)

    # what follows from these two formulas, for every record
    a, b = c.real("scale"), c.real("offset")
    y = lambda i: s_add(s_mul(a, x(i)), b)
    z = lambda i: x(s_sub(s_sub(n, 1), i))

    def affine_sum(N, g, h):
        """SUM(N, a g + b) = a SUM(N, g) + N b, by induction"""
        q = c.fn("lem_g")
        B, A0, B0 = L._n("lem_b"), keep(z3.Real("lem_a0")), keep(z3.Real("lem_b0"))
        st = lambda B: s_eq(SUM(B, lambda i: s_add(s_mul(A0, q(i)), B0)), s_add(s_mul(A0, SUM(B, q)), s_mul(B, B0)))
        L._prove(c, "sum of a multiple plus a constant", [("base", Hyps(), st(0)), ("step", Hyps().plus(B >= 0, st(B)), st(B + 1))])
        return s_eq(SUM(N, lambda i: s_add(s_mul(a, g(i)), h)), s_add(s_mul(a, SUM(N, g)), s_mul(N, h)))

    def scaling():
        h0 = Hyps().plus(n >= 2)
        i = fresh("i")
        at = h0.plus(i >= 0, lt(i, n))
        m1 = affine_sum(n, x, b)
        c.ob("mean of a multiple plus a constant", h0.plus(m1), s_eq(mean(y), s_add(s_mul(a, mean(x)), b)))
        em = s_eq(mean(y), s_add(s_mul(a, mean(x)), b))
        c.ob("deviation from the mean: scaled", at.plus(em), s_eq(s_sub(y(i), mean(y)), s_mul(a, s_sub(x(i), mean(x)))))
        mx = mean(x)
        for k in (2, 3):
            d = c.fn("dev")
            B = L._n("lem_b")
            st = lambda B: s_eq(SUM(B, lambda i: ipow(s_mul(a, d(i)), k)), s_mul(ipow(a, k), SUM(B, lambda i: ipow(d(i), k))))
            L._prove(c, "power %d of multiples" % k, [("base", Hyps(), st(0)), ("step", Hyps().plus(B >= 0, st(B)), st(B + 1))])
        # the Hilbert transform: linear, and zero for a constant
        j = fresh("j")
        K = lambda i: HILK(n, s_sub(j, i))
        none = s_eq(SUM(n, K), 0)
        g, hq = c.fn("lem_g"), c.fn("lem_h")
        B = L._n("lem_b")
        st = lambda B: s_eq(SUM(B, lambda i: s_mul(hq(i), s_add(s_mul(a, g(i)), b))), s_add(s_mul(a, SUM(B, lambda i: s_mul(hq(i), g(i)))), s_mul(b, SUM(B, hq))))
        L._prove(c, "weighted sum of a multiple plus a constant", [("base", Hyps(), st(0)), ("step", Hyps().plus(B >= 0, st(B)), st(B + 1))])
        lin = s_eq(SUM(n, lambda i: s_mul(K(i), y(i))), s_add(s_mul(a, SUM(n, lambda i: s_mul(K(i), x(i)))), s_mul(b, SUM(n, K))))
        c.ob("Hilbert transform: scaled, the constant left out", h0.plus(j >= 0, lt(j, n), none, lin), s_eq(hil(y)(j), s_mul(a, hil(x)(j))))
        # the quotients
        D2, D3, N = c.real("D2"), c.real("D3"), c.real("N")
        v0, v1 = s_div(D2, N), s_div(s_mul(s_mul(a, a), D2), N)
        r0, r1 = v_sqrt_(v0), v_sqrt_(v1)
        ab = s_ite(ge(a, 0), a, s_neg(a))
        hq = Hyps().plus(D2 > 0, N > 0, s_not(s_eq(a, 0)))
        R0, R1, V0, AB = c.real("R0"), c.real("R1"), c.real("V0"), c.real("AB")
        c.ob("root of the scaled variance: squares", Hyps().plus(R0 > 0, R1 > 0, V0 > 0, AB > 0, R0 * R0 == V0, R1 * R1 == AB * AB * V0), R1 * R1 == (AB * R0) * (AB * R0))
        c.ob("root of the scaled variance", Hyps().plus(R0 > 0, R1 > 0, AB > 0, R1 * R1 == (AB * R0) * (AB * R0)), R1 == AB * R0)
        sg = s_ite(ge(a, 0), 1, -1)
        for w, cond in (("positive", a > 0), ("negative", a < 0)):
            hh = Hyps().plus(N > 0, V0 > 0, R0 > 0, cond)
            pos = cond is not None and w == "positive"
            m = a if pos else -a
            c.ob("quotient for a %s multiple" % w, hh, s_eq(s_div(s_div(s_mul(ipow(a, 3), D3), N), s_mul(s_mul(s_mul(a, a), V0), s_mul(m, R0))), s_mul(1 if pos else -1, s_div(s_div(D3, N), s_mul(V0, R0)))))
    c.part("level and scale", scaling)

    def reversal():
        h0 = Hyps().plus(n >= 2)
        c.ob("mean of the reversed record", h0.plus(L.reverse(c, n, x)), s_eq(mean(z), mean(x)))
        e = s_eq(mean(z), mean(x))
        for k in (2, 3):
            g = lambda i, k=k: ipow(s_sub(x(i), mean(x)), k)
            c.ob("moment %d of the reversed record" % k, h0.plus(L.reverse(c, n, g)), s_eq(SUM(n, lambda i, k=k: ipow(s_sub(z(i), mean(x)), k)), SUM(n, g)))
        j = fresh("j")
        jr = s_sub(s_sub(n, 1), j)
        # sum of K(j - i) x(n-1-i) read backwards is the sum of K(i - (n-1-j)) x(i) = - K((n-1-j) - i) x(i)
        g = lambda i: s_mul(HILK(n, s_sub(i, jr)), x(i))
        i = fresh("i")
        odd = lambda i: s_eq(HILK(n, s_sub(i, jr)), s_neg(HILK(n, s_sub(jr, i))))
        c.ob("Hilbert transform of the reversed record: read backwards", h0.plus(L.reverse(c, n, g)), s_eq(hil(z)(j), SUM(n, g)))
        q1, q2 = c.fn("lem_p"), c.fn("lem_q")
        B = L._n("lem_b")
        st = lambda B: s_eq(SUM(B, q1), s_neg(SUM(B, q2)))
        L._prove(c, "sum of opposite terms", [("base", Hyps(), st(0)), ("step", Hyps().plus(B >= 0, st(B), s_eq(q1(B), s_neg(q2(B)))), st(B + 1))])
        c.ob("Hilbert transform of the reversed record: each term", h0.plus(i >= 0, lt(i, n), odd(i)), s_eq(g(i), s_neg(s_mul(HILK(n, s_sub(jr, i)), x(i)))))
        c.ob("Hilbert transform of the reversed record", h0.plus(s_eq(hil(z)(j), SUM(n, g)), s_eq(SUM(n, g), s_neg(SUM(n, lambda i: s_mul(HILK(n, s_sub(jr, i)), x(i)))))), s_eq(hil(z)(j), s_neg(hil(x)(jr))))
        u = c.fn("u")
        c.ob("asymmetry of the reversed record", h0.plus(L.reverse(c, n, lambda i: ipow(s_neg(u(i)), 3))), s_eq(SUM(n, lambda i: ipow(s_neg(u(s_sub(s_sub(n, 1), i))), 3)), s_neg(SUM(n, lambda i: ipow(u(i), 3)))))
    c.part("reversed in time", reversal)
    c.assume.append("scipy.signal.hilbert: the imaginary part is a circular convolution of the samples with an odd kernel whose sum is zero (libtest compares it)")


# ----------------------------------------------------------------------------- C26
def C26(c):
    n = c.n("n")
    f, df, Hf = axis(c, "f")
    f0 = f(0)
    s = c.fn("S")
    top = lambda s: s(ARGMAX(n, s))
    high = lambda s: (lambda i: ge(s_div(s(i), s_mul(T_.Fraction(8, 10), top(s))), T_.Fraction(8, 10)))
    base = [n >= 2] + Hf
    ends = lambda s: (f(FIRST(n, high(s))), f(LAST(n, high(s))))

    def measure():
        moment_contract(c)
        H = base + [gt(top(s), 0)]
        lo, hi = ends(s)
        for p in c.returns("tpd", c.run(lambda: c.call("core_wavefunctions.tpd", c.arrf(f, n), c.arrf(s, n)), *(H + [s_not(s_eq(lo, -1)), s_not(s_eq(hi, -1)), f0 >= 0, gt(mom(c, n, f0, df, s, 1, lo, hi), 0)]))):
            c.ob("tpd: m0 over m1 from the first to the last sample of at least 0.64 of the highest", p.hyps, s_eq(p.value, s_div(mom(c, n, f0, df, s, 0, lo, hi), mom(c, n, f0, df, s, 1, lo, hi))))
    c.part("the period of the code", measure)

    def band():
        """which samples: all of at least 0.64 of the highest lie in the band, and its ends are such samples"""
        i = fresh("i")
        H = Hyps().plus(*base).plus(gt(top(s), 0))
        at = H.plus(i >= 0, lt(i, n))
        c.ob("a sample counts exactly when it reaches 0.64 of the highest", at, s_eq(high(s)(i), ge(s(i), s_mul(T_.Fraction(64, 100), top(s)))))
        am = ARGMAX(n, s)
        c.ob("the highest sample counts", H, s_and(high(s)(am), ge(am, 0), lt(am, n)))
        inn = s_and(high(s)(am), ge(am, 0), lt(am, n))
        fi, la = FIRST(n, high(s)), LAST(n, high(s))
        c.ob("the band has ends", H.plus(inn), s_and(ge(fi, 0), le(fi, la), lt(la, n)))
        c.ob("every sample that counts is inside", at.plus(high(s)(i)), s_and(le(fi, i), ge(la, i)))
        c.ob("the ends of the band count", H.plus(inn), s_and(high(s)(fi), high(s)(la)))
    c.part("the band", band)

    def scaling():
        k = c.real("scale")
        sc = lambda i: s_mul(k, s(i))
        H = Hyps().plus(*base).plus(gt(top(s), 0), k > 0)
        a, b = ARGMAX(n, s), ARGMAX(n, sc)
        i = fresh("i")
        c.ob("the highest density is scaled", H, s_eq(top(sc), s_mul(k, top(s))))
        c.ob("the same samples count", H.plus(i >= 0, lt(i, n), s_eq(top(sc), s_mul(k, top(s)))), s_eq(high(sc)(i), high(s)(i)))
        # a weighted sum is scaled
        W, q = c.fn("W"), c.fn("lem_q")
        B = L._n("lem_b")
        st = lambda B: s_eq(SUM(B, lambda i: s_mul(W(i), s_mul(k, q(i)))), s_mul(k, SUM(B, lambda i: s_mul(W(i), q(i)))))
        L._prove(c, "weighted sum of multiples", [("base", Hyps(), st(0)), ("step", Hyps().plus(B >= 0, st(B)), st(B + 1))])
        m0, m1 = c.real("m0"), c.real("m1")
        c.ob("the quotient stays", Hyps().plus(k > 0, m1 > 0), s_eq(s_div(s_mul(k, m0), s_mul(k, m1)), s_div(m0, m1)))
    c.part("scaled densities", scaling)

    def inside():
        """between the inverse frequencies of the ends of the band"""
        N, a = c.n("N"), c.n("a")
        W = lambda i: keep(S.SIMPW(I(N), I(i)))
        fr = lambda i: f(s_add(a, i))
        d = lambda i: s(s_add(a, i))
        H = Hyps().plus(n >= 2, f0 >= 0, *Hf).plus(N >= 2, a >= 0, le(s_add(a, N), n), gt(f(a), 0), Univ(0, N, lambda i: ge(d(i), 0)), Univ(0, N, lambda i: gt(W(i), 0)))
        fl, fh = f(a), f(s_sub(s_add(a, N), 1))
        M0, M1 = SUM(N, lambda i: s_mul(W(i), d(i))), SUM(N, lambda i: s_mul(W(i), s_mul(fr(i), d(i))))
        low = L.sum_le(c, "m1 >= lowest frequency times m0", H, N, lambda i: s_mul(fl, s_mul(W(i), d(i))), lambda i: s_mul(W(i), s_mul(fr(i), d(i))))
        upp = L.sum_le(c, "m1 <= highest frequency times m0", H, N, lambda i: s_mul(W(i), s_mul(fr(i), d(i))), lambda i: s_mul(fh, s_mul(W(i), d(i))))
        m0, m1, x0, x1 = c.real("m0"), c.real("m1"), c.real("fl"), c.real("fh")
        c.ob("m0/m1 between the inverse frequencies", Hyps().plus(m0 > 0, m1 > 0, x0 > 0, x1 >= x0, m1 >= x0 * m0, m1 <= x1 * m0), s_and(le(s_div(m0, m1), s_div(1, x0)), ge(s_div(m0, m1), s_div(1, x1))))
    c.part("inside the band", inside)
