"""Lemmas used by the goals. Each is proved by induction over uninterpreted functions on every run
(the obligations are added to the property that uses it); a goal then adds an instance as a hypothesis."""
import z3

import solve as S
import terms as T_
from solve import Hyps, SUM, Univ, fresh
from terms import R, s_add, s_and, s_cmp, s_eq, s_ite, s_mul, s_neg, s_not, s_or, s_sub

_done = {}


def _prove(c, name, steps):
    """steps: list of (obligation name, hyps, goal)"""
    if name in c.names:
        return
    c.names.add(name)
    for nm, h, goal in steps:
        c.ob("lemma %s: %s" % (name, nm), h, goal)


def _n(nm):
    return T_.keep(z3.Int(nm + "~0"))


def split(c, n, a, g):
    """0 <= a <= n  =>  SUM(n, g) = SUM(a, g) + SUM(n - a, g(a + .))"""
    q = c.fn("lem_g")
    A, b = _n("lem_a"), _n("lem_b")
    st = lambda b: s_eq(SUM(s_add(A, b), q), s_add(SUM(A, q), SUM(b, lambda i: q(s_add(A, i)))))
    _prove(c, "sum-split", [("base", Hyps().plus(A >= 0), st(0)), ("step", Hyps().plus(A >= 0, b >= 0, st(b)), st(b + 1))])
    return S.imp(s_and(s_cmp("<=", 0, a), s_cmp("<=", a, n)), s_eq(SUM(n, g), s_add(SUM(a, g), SUM(s_sub(n, a), lambda i: g(s_add(a, i))))))


def peel(c, n, g):
    """n >= 1  =>  SUM(n, g) = g(0) + SUM(n - 1, g(1 + .))"""
    split(c, 1, 1, g)
    return S.imp(s_cmp(">=", n, 1), s_eq(SUM(n, g), s_add(g(0), SUM(s_sub(n, 1), lambda i: g(s_add(1, i))))))


def reverse(c, n, g):
    """SUM(n, g) = SUM(n, g(n - 1 - .)), by induction (the first summand peeled off)"""
    q = c.fn("lem_g")
    b = _n("lem_b")
    # induction over functions: the hypothesis is taken for the function shifted by one
    lhs = SUM(b + 1, q)
    rhs = SUM(b + 1, lambda i: q(s_sub(b, i)))
    sh = lambda i: q(s_add(1, i))
    ih = s_eq(SUM(b, sh), SUM(b, lambda i: sh(s_sub(s_sub(b, 1), i))))
    _prove(c, "sum-reverse", [("base", Hyps(), s_eq(SUM(0, q), SUM(0, lambda i: q(s_sub(-1, i))))),
                              ("step", Hyps().plus(b >= 0, ih, peel(c, b + 1, q)), s_eq(lhs, rhs))])
    return S.imp(s_cmp(">=", n, 0), s_eq(SUM(n, g), SUM(n, lambda i: g(s_sub(s_sub(n, 1), i)))))


def blocks(c, k, m, g):
    """SUM(k*m, g) = SUM(k, j -> SUM(m, g(j*m + .)))"""
    q = c.fn("lem_g")
    K, M = _n("lem_k"), _n("lem_m")
    st = lambda K: s_eq(SUM(s_mul(K, M), q), SUM(K, lambda j: SUM(M, lambda i: q(s_add(s_mul(j, M), i)))))
    n1 = s_mul(K + 1, M)
    _prove(c, "sum-blocks", [("base", Hyps().plus(M >= 1), st(0)),
                             ("step", Hyps().plus(M >= 1, K >= 0, K * M >= 0, K * M <= n1, st(K), split(c, n1, s_mul(K, M), q)), st(K + 1))])
    return S.imp(s_and(s_cmp(">=", k, 0), s_cmp(">=", m, 1)), s_eq(SUM(s_mul(k, m), g), SUM(k, lambda j: SUM(m, lambda i: g(s_add(s_mul(j, m), i))))))


def sum_le(c, name, h, n, f, g):
    """pointwise f <= g on 0 <= i < n (an obligation) gives SUM(n, f) <= SUM(n, g)"""
    p, q = c.fn("lem_p"), c.fn("lem_q")
    b = _n("lem_b")
    st = lambda b: s_cmp("<=", SUM(b, p), SUM(b, q))
    _prove(c, "sum-monotone", [("base", Hyps(), st(0)), ("step", Hyps().plus(b >= 0, st(b), p(b) <= q(b)), st(b + 1))])
    i = fresh("i")
    if not c.ob("%s: pointwise" % name, h.plus(i >= 0, s_cmp("<", i, n)), s_cmp("<=", f(i), g(i))):
        return True
    return s_cmp("<=", SUM(n, f), SUM(n, g))


def cauchy(c, n, u, v):
    """Cauchy-Schwarz: SUM(n, u v)^2 <= SUM(n, u^2) SUM(n, v^2)"""
    p, q = c.fn("lem_p"), c.fn("lem_q")
    b = _n("lem_b")
    A = lambda b: SUM(b, lambda i: s_mul(p(i), q(i)))
    B_ = lambda b: SUM(b, lambda i: s_mul(p(i), p(i)))
    C = lambda b: SUM(b, lambda i: s_mul(q(i), q(i)))
    st = lambda b: s_and(s_cmp("<=", s_mul(A(b), A(b)), s_mul(B_(b), C(b))), s_cmp(">=", B_(b), 0), s_cmp(">=", C(b), 0))
    a, bb, cc, x, y = [T_.keep(z3.Real("lem_" + s)) for s in "abcxy"]
    _prove(c, "cauchy-schwarz", [("base", Hyps(), st(0)),
                                 ("algebra", Hyps().plus(bb >= 0, cc >= 0, a * a <= bb * cc), (a + x * y) * (a + x * y) <= (bb + x * x) * (cc + y * y)),
                                 ("step", Hyps().plus(b >= 0, st(b), S.imp(st(b), s_cmp("<=", s_mul(s_add(A(b), s_mul(p(b), q(b))), s_add(A(b), s_mul(p(b), q(b)))),
                                  s_mul(s_add(B_(b), s_mul(p(b), p(b))), s_add(C(b), s_mul(q(b), q(b))))))), st(b + 1))])
    U = SUM(n, lambda i: s_mul(u(i), v(i)))
    return S.imp(s_cmp(">=", n, 0), s_cmp("<=", s_mul(U, U), s_mul(SUM(n, lambda i: s_mul(u(i), u(i))), SUM(n, lambda i: s_mul(v(i), v(i))))))


def fold(c, name, h, m, odd, g):
    """g(n - i) = g(i) for 0 < i < n (an obligation)  =>  SUM(n, g) = 2 SUM(floor(n/2) + 1, g) - g(0) - [n even] g(n/2);  n = 2m (+ 1)"""
    q = c.fn("lem_g")
    M = _n("lem_m")

    def parts(m, g):
        n = s_add(s_mul(2, m), 1 if odd else 0)
        nF = s_add(m, 1)
        g1 = lambda i: g(s_add(1, i))
        k = m if odd else s_sub(m, 1)                 # mirrored samples
        tail = lambda i: g1(s_add(m, i))
        return n, nF, g1, k, tail

    def st(m, g):
        n, nF, g1, k, tail = parts(m, g)
        return s_eq(SUM(n, g), s_sub(s_sub(s_mul(2, SUM(nF, g)), g(0)), 0 if odd else g(m)))
    n, nF, g1, k, tail = parts(M, q)
    symm = Univ(1, n, lambda i: s_eq(q(i), q(s_sub(n, i))))
    hy = Hyps().plus(M >= 1, symm, peel(c, n, q), split(c, s_sub(n, 1), m if False else M, g1), peel(c, nF, q), reverse(c, k, tail))
    if not odd:
        # SUM(m, g1) = SUM(m - 1, g1) + g(m)
        hy = hy.plus(s_eq(SUM(M, g1), s_add(SUM(M - 1, g1), q(M))))
    w = "odd" if odd else "even"
    i = fresh("e")
    mir = lambda i: tail(s_sub(s_sub(k, 1), i))
    _prove(c, "fold-" + w, ([] if odd else [("last summand", Hyps().plus(M >= 1), s_eq(SUM(M, g1), s_add(SUM(M - 1, g1), q(M))))]) +
           [("mirrored", Hyps().plus(M >= 1, symm, i >= 0, s_cmp("<", i, k)), s_eq(mir(i), g1(i))),
            ("sum", Hyps(hy.items[:1] + hy.items[2:]).plus(s_eq(SUM(k, mir), SUM(k, g1))), st(M, q))])
    i = fresh("i")
    nn = parts(m, g)[0]
    if not c.ob("%s: symmetric" % name, h.plus(i >= 1, s_cmp("<", i, nn)), s_eq(g(i), g(s_sub(nn, i)))):
        return True
    return S.imp(s_cmp(">=", m, 1), st(m, g))


def point(c, n, f, g, k):
    """f = g on 0 <= i < n except at k (0 <= k < n)  =>  SUM(n, f) - SUM(n, g) = f(k) - g(k)"""
    p, q = c.fn("lem_p"), c.fn("lem_q")
    b, K = _n("lem_b"), _n("lem_k")
    st = lambda b: s_eq(s_sub(SUM(b, p), SUM(b, q)), s_ite(s_cmp("<", K, b), s_sub(p(K), q(K)), 0))
    _prove(c, "sum-point", [("base", Hyps().plus(K >= 0), st(0)), ("step", Hyps().plus(K >= 0, b >= 0, st(b), s_or(s_eq(p(b), q(b)), s_eq(b, K))), st(b + 1))])
    return s_eq(s_sub(SUM(n, f), SUM(n, g)), s_sub(f(k), g(k)))


def perm_sum(c, n, key, g):
    """SUM(n, g o p) = SUM(n, g) for the sorting permutation p, by induction over the permutations of 0..n-1:
    a permutation of 0..n with its largest place removed"""
    q = c.fn("lem_g")
    f, v = c.fn("lem_f", z3.IntSort()), c.fn("lem_v", z3.IntSort())      # a permutation of 0..b and its inverse
    b, i, j = _n("lem_b"), _n("lem_i"), _n("lem_j")
    ok = lambda f, v, n, i: s_and(s_cmp(">=", f(i), 0), s_cmp("<", f(i), n), s_cmp(">=", v(i), 0), s_cmp("<", v(i), n), s_eq(v(f(i)), i), s_eq(f(v(i)), i))
    perm = Univ(0, b + 1, lambda i: ok(f, v, b + 1, i))
    k = v(b)
    f2 = lambda i: s_ite(s_eq(f(i), b), f(b), f(i))
    v2 = lambda j: s_ite(s_eq(j, f(b)), k, v(j))
    inst = [ok(f, v, b + 1, x) for x in (i, b, f(i), f(b), v(i), v(b))]
    a2 = ok(f2, v2, b, i)
    F = lambda h: (lambda i: q(h(i)))
    step = [perm, ok(f, v, b + 1, b), ok(f, v, b + 1, k)]
    ih = s_eq(SUM(b, F(f2)), SUM(b, q))
    pt = S.imp(s_cmp("<", k, b), s_eq(s_sub(SUM(b, F(f)), SUM(b, F(f2))), s_sub(q(f(k)), q(f2(k)))))
    point(c, b, F(f), F(f2), k)
    _prove(c, "sum-permuted", [("base", Hyps(), s_eq(SUM(0, F(f)), SUM(0, q))),
                               ("step, still a permutation", Hyps().plus(b >= 1, i >= 0, i < b, *inst), a2),
                               ("step, the same elsewhere", Hyps().plus(b >= 1, i >= 0, i < b, *inst), s_or(s_eq(q(f(i)), q(f2(i))), s_eq(i, k))),
                               ("step, the largest in place", Hyps().plus(b >= 0, i >= 0, i < b, s_eq(k, b), *inst), s_eq(f2(i), f(i))),
                               ("step, sum", Hyps().plus(b >= 0, ih, pt, s_or(s_not(s_eq(k, b)), s_eq(SUM(b, F(f)), SUM(b, F(f2)))), ok(f, v, b + 1, b), ok(f, v, b + 1, k)), s_eq(SUM(b + 1, F(f)), SUM(b + 1, q)))])
    # the sorting permutation is one
    r = fresh("r")
    P_, V = (lambda r: S.PERM(r, n, key)), (lambda i: S.INVP(i, n, key))
    _prove(c, "sorting-permutation", [("permutation", Hyps().plus(s_cmp(">=", r, 0), s_cmp("<", r, n)), ok(P_, V, n, r))])
    return s_eq(SUM(n, lambda r: g(P_(r))), SUM(n, g))


def unique(c, name, h, n, p, j, k=1):
    """p holds on 0 <= i < n exactly at j (or, k = 2, at j and j + 1): how many and which"""
    q = c.fn("lem_p", z3.BoolSort())
    N, J = _n("lem_n"), _n("lem_j")
    C, nth = S.CNT(N, q), lambda r: S.NTH(r, q)
    H = Hyps().plus(J >= 0, J + k - 1 < N, *[q(s_add(J, d)) for d in range(k)])
    only = Univ(0, N, lambda i: s_or(s_not(q(i)), *[s_eq(i, J + d) for d in range(k)]))
    H = H.plus(only)
    nm = "unique place" if k == 1 else "two places"
    steps = [("one is first", H, s_and(C >= 1, s_eq(S.FIRST(N, q), J)))]
    if k == 2:
        two = [s_eq(S.CNT(J + d, q), S.CNT(s_add(J, d - 1), q) + 1) for d in (1, 2)]
        steps += [("counted up to place %d" % d, H, e) for d, e in enumerate(two)]
        steps.append(("two at least", H.plus(*two).plus(s_cmp("<=", J + 2, N)), C >= 2))
        steps.append(("last", H, s_eq(S.LAST(N, q), J + 1)))
        at = lambda r: s_and(nth(r) >= 0, s_cmp("<", nth(r), N), q(nth(r)))
        steps += [("first", H.plus(C >= 2), at(0)), ("second", H.plus(C >= 2), at(1)), ("order", H.plus(C >= 2), nth(0) < nth(1))]
        steps.append(("which", H.plus(at(0), at(1), nth(0) < nth(1)), s_and(s_eq(nth(0), J), s_eq(nth(1), J + 1))))
    more = H.plus(C >= k + 1)
    steps.append(("no more", more.plus(*[s_and(nth(r) >= 0, s_cmp("<", nth(r), N), q(nth(r)), *([nth(r) < nth(r + 1)] if r < k else [])) for r in range(k + 1)]), False))
    steps += [("places %d" % r, more, s_and(nth(r) >= 0, s_cmp("<", nth(r), N), q(nth(r)))) for r in range(k + 1)]
    steps += [("increasing %d" % r, more, nth(r) < nth(r + 1)) for r in range(k)]
    _prove(c, nm, steps)
    i = fresh("i")
    ok = all([c.ob("%s: holds there" % name, h, s_and(*[p(s_add(j, d)) for d in range(k)])),
              c.ob("%s: holds nowhere else" % name, h.plus(i >= 0, s_cmp("<", i, n), p(i)), s_or(*[s_eq(i, s_add(j, d)) for d in range(k)])),
              c.ob("%s: inside" % name, h, s_and(s_cmp(">=", j, 0), s_cmp("<", s_add(j, k - 1), n)))])
    if not ok:
        return []
    return [s_eq(S.CNT(n, p), k), s_eq(S.FIRST(n, p), j), s_eq(S.LAST(n, p), s_add(j, k - 1))] + [s_eq(S.NTH(d, p), s_add(j, d)) for d in range(k)]
