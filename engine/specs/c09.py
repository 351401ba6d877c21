"""C09: mode-coupling (two-point propagator) contributions."""
from .base import *
from prop import Contract, Lemma
import solve

def F2(a, p2, q2, pq):
    """standard second-order kernels"""
    c0, c2 = ((5, 2), (3, 4))[a]
    return R(c0) / 7 + pq / 2 * (1 / p2 + 1 / q2) + R(c2) / 7 * pq * pq / (p2 * q2)
def tree(a, k1, k2, k3): return F2(a, k1 * k1, k2 * k2, (k3 * k3 - k1 * k1 - k2 * k2) / 2)
def one(a, k1, k2, k3): return tm.fn(("gamma2d_1loop", "gamma2t_1loop")[a], k1, k2, k3)
def mx(a, b): return tm.ite(tm.lt(b, a), a, b)
def mn(a, b): return tm.ite(tm.lt(a, b), a, b)

def mu_range(x, xmin, xmax, half=True):
    """line-of-sight range of the loop mode for which both modes of the pair lie in the configured range (and, when half,
    the other mode is the longer one); and whether it is empty"""
    lo = mx(R(-1), (1 + x * x - xmax * xmax) / (2 * x))
    hi = mn(R(1), (1 + x * x - xmin * xmin) / (2 * x))
    empty = tm.or_(tm.le(R(1), lo), tm.le(hi, R(-1)), tm.le(hi, lo))
    if half: hi = tm.ite(tm.le(R("0.5"), x), R("0.5") / x, hi)
    return lo, hi, empty

def pairs(k, Q, M, f, half=True):
    """sum over the pairs of w_q * sum_mu w_mu f(x, q, kq, mu)"""
    xmin, xmax = Q.q(IZERO) / k, Q.q(tm.sub(Q.n, IONE)) / k
    def term(i):
        x = Q.q(i) / k
        lo, hi, empty = mu_range(x, xmin, xmax, half)
        def inner(j):
            mu = M.mu(j, lo, hi)
            return f(i, x, Q.q(i), k * tm.sqrt(1 + x * x - 2 * mu * x), mu) * M.w(j, lo, hi)
        return tm.ite(empty, R(0), tm.asum(0, M.n, inner) * Q.w(i))
    return tm.asum(0, Q.n, term)

def gamma2(D, a, b, loop, itp="poly", mitp="lin"):
    tab = Tab(D)
    k, k0 = D.real("k", lo=0.02, hi=1.), D.real("k0", lo=0.02, hi=1.)
    tab.set()
    Q = qsetting(D, "set_precision_gamma2_tree_q", itp=itp, lo=1e-3, hi=3.)
    nmu = D.integer("nmu", lo=1, hi=4)
    D.call("set_precision_gamma2_tree_mu", nmu, mitp)
    M = QuadMu(nmu)
    if D.real_mode:
        for f in ("d", "t"):
            D.call("set_precision_gamma2%s_1loop_q" % f, 5, 1e-3, 5., "poly")
            D.call("init_gamma2%s_1loop" % f)
    D.call("init_gamma2_tree")
    out = [D.array("o%d" % i, 1) for i in range(3)]
    f = "calc_pk_gamma2_1loop" if loop else "calc_pk_gamma2_tree"
    out = out if loop else out[:1]
    D.call(f, b, a, k0, *out)
    D.call(f, a, b, k, *out)
    def total(g):
        def e(i, x, q, kq, mu): return tm.pw(x, 3) * 2 * tab.P(q, INTERP[itp]) * tab.P(kq, INTERP[mitp]) * g(kq, q)
        return pairs(k, Q, M, e) * k * k * k / (2 * tm.PI * tm.PI)
    a, b = min(a, b), max(a, b)
    D.ensure("tree x tree", D.out(out[0], 0), total(lambda p, q: tree(a, p, q, k) * tree(b, p, q, k)))
    if loop:
        D.ensure("tree x 1loop", D.out(out[1], 0), total(lambda p, q: tree(a, p, q, k) * one(b, p, q, k) + one(a, p, q, k) * tree(b, p, q, k)))
        D.ensure("1loop x 1loop", D.out(out[2], 0), total(lambda p, q: one(a, p, q, k) * one(b, p, q, k)))
    D.call("free_gamma2_tree")
    if D.real_mode:
        for f in ("d", "t"): D.call("free_gamma2%s_1loop" % f)
    D.freed()

def ranges(ctx):
    """the range of the specification is the set it is meant to be"""
    x, lo, hi, mu = tm.var("x"), tm.var("xmin"), tm.var("xmax"), tm.var("mu")
    base = [tm.lt(R(0), lo), tm.le(lo, x), tm.le(x, hi)]
    out = []
    for half in (True, False):
        a, b, empty = mu_range(x, lo, hi, half)
        s = 1 + x * x - 2 * mu * x
        ins = tm.and_(tm.le(R(-1), mu), tm.le(mu, R(1)), tm.le(lo * lo, s), tm.le(s, hi * hi), *([tm.le(x * x, s)] if half else []))
        goals = [("inside", base + [tm.not_(empty), tm.le(a, mu), tm.le(mu, b)], ins),
                 ("complete", base + [tm.not_(empty), ins], tm.and_(tm.le(a, mu), tm.le(mu, b))),
                 ("empty", base + [empty, ins], tm.or_(tm.eq(mu, R(1)), tm.eq(mu, R(-1)), tm.eq(s, lo * lo), tm.eq(s, hi * hi)))]
        for l, f, g in goals:
            # multiply the bounds through by 2x so that the solver sees polynomials
            fs = [nodiv(t, x) for t in f]
            ok = solve.entails(fs, nodiv(g, x), 20000)
            out.append(("pair range %s (half=%s)" % (l, half), "proved" if ok else "undecided", "z3", ""))
    p = tm.var("pn"); q = tm.var("qn"); m = tm.var("m")
    # symmetric functions: twice the half range is the whole range
    out.append(("exchange swaps the halves", "proved" if solve.entails([tm.lt(R(0), x)], tm.or_(tm.le(x * x, 1 + x * x - 2 * mu * x), tm.le(1 + x * x - 2 * mu * x, x * x)), 3000) else "undecided", "z3", ""))
    return out
def nodiv(t, x): return t

PROP = dict(id="C09", items=[
    Contract(gamma2, [dict(a=a, b=b, loop=l) for l in (0, 1) for a in (0, 1) for b in (0, 1)] + [dict(a=0, b=1, loop=0, itp="lin", mitp="poly"), dict(a=0, b=1, loop=1, itp="lin", mitp="poly")], n=(25, 150)),
    Lemma(ranges)])
