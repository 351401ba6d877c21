"""C10: third-order (three-mode) contribution."""
from .base import *
from . import c05
from prop import Contract, Lemma

def vecof(ex, st, p, node):
    f = extent(ex, st, p, I(3), node)
    return [f(I(i)) for i in range(3)]
def cut_F3(ex, st, a, node, fn):
    """contract of F3_sym (C05): a function of the three modes"""
    if len(a) != 4: return NotImplemented
    return tm.fn("F3sym", ex.as_int(a[0]), *(vecof(ex, st, a[1], node) + vecof(ex, st, a[2], node) + vecof(ex, st, a[3], node)))
def F3num(a, *v):
    v = [float(x) for x in v]
    return float(tm.evaluate(c05.F3sym(int(a), *[[R(x) for x in v[i:i + 3]] for i in (0, 3, 6)]), {}))

def gamma3(D, a, b, itp="poly", auto=False):
    tab = Tab(D, nlo=3, nhi=14)
    if D.real_mode: D.env["fn:F3sym"] = F3num
    k, k0 = D.real("k", lo=0.02, hi=1.), D.real("k0", lo=0.02, hi=1.)
    if auto:
        tab.set()
        D.call("set_precision_gamma3_tree_q", -1., -1., itp)
        qmin, qmax = tab.k[0], tab.k[tm.sub(tab.n, IONE)]
        if not D.real_mode: D.require(tm.lt(tab.k[0], tab.k[tm.sub(tab.n, IONE)]))
    else:
        qmin = D.real("qmin", lo=1e-3, hi=0.2); qmax = D.real("qmax", lo=0.3, hi=10.)
        D.require(tm.lt(qmin, qmax))
        tab.set()
        D.call("set_precision_gamma3_tree_q", qmin, qmax, itp)
    o = D.array("o", 1)
    D.call("init_gamma3_tree")
    D.call("calc_pk_gamma3_tree", b, a, k0, o)
    D.call("calc_pk_gamma3_tree", a, b, k, o)
    D.call("free_gamma3_tree")
    L = tm.log(qmax) - tm.log(qmin)
    def f(n):
        u = [tm.fn("SUVx", n, I(d)) for d in range(5)]
        p, q = tm.exp(tm.log(qmin) + L * u[0]), tm.exp(tm.log(qmin) + L * u[3])
        t1, ph, t2 = tm.PI * u[1], 2 * tm.PI * u[2], tm.PI * u[4]
        P = [p * tm.sin(t1) * tm.cos(ph), p * tm.sin(t1) * tm.sin(ph), p * tm.cos(t1)]
        Q = [q * tm.sin(t2), R(0), q * tm.cos(t2)]
        K = [R(0), R(0), k]
        S = [K[i] - P[i] - Q[i] for i in range(3)]        # the three modes add up to k
        KP = [K[i] - P[i] for i in range(3)]
        s = tm.sqrt(c05.dot(S, S))
        # |q| <= |k-p-q|: half of the region symmetric under exchange of those two modes
        cond = tm.and_(tm.le(qmin, s), tm.le(s, qmax), tm.le(c05.dot(Q, KP), c05.dot(KP, KP) / 2))
        ker = lambda c: tm.fn("F3sym", I(c), *(P + Q + S))
        # dp^3 dq^3 = p^3 q^3 sin t1 sin t2 dlogp dlogq dt1 dt2 dphi1 dphi2, integrated over the azimuth of q (2 pi)
        jac = L * L * tm.PI * tm.PI * (2 * tm.PI) * (2 * tm.PI) * tm.sin(t1) * tm.sin(t2) * p * p * p * q * q * q
        v = 2 * ker(a) * ker(b) * tab.P(p, INTERP[itp]) * tab.P(q, INTERP[itp]) * tab.P(s, INTERP[itp]) * jac
        return tm.ite(cond, v, R(0)) * tm.fn("SUVw", n)
    D.ensure("third-order contribution", D.out(o, 0), 6 * tm.asum(0, NSUV, f) / tm.pw(2 * tm.PI, 6), rtol=1e-6)
    D.freed()

def geometry(ctx):
    """the half region is the one where the second mode is not longer than the third; Jacobian of spherical coordinates"""
    import solve
    q = [tm.var("q%d" % i) for i in range(3)]; kp = [tm.var("w%d" % i) for i in range(3)]
    s = [kp[i] - q[i] for i in range(3)]
    half = tm.le(c05.dot(q, kp), c05.dot(kp, kp) / 2)
    out = []
    goal = tm.le(c05.dot(q, q), c05.dot(s, s))
    ok = solve.entails([half], goal, 10000) and solve.entails([goal], half, 10000)
    out.append(("half region", "proved" if ok else "undecided", "z3", ""))
    import sympy as sp
    l, t, f = sp.symbols("l t f", real=True)
    v = sp.Matrix([sp.exp(l) * sp.sin(t) * sp.cos(f), sp.exp(l) * sp.sin(t) * sp.sin(f), sp.exp(l) * sp.cos(t)])
    J = sp.simplify(v.jacobian([l, t, f]).det() - sp.exp(3 * l) * sp.sin(t))
    out.append(("Jacobian of the logarithmic spherical map", "proved" if J == 0 else "violated", "sympy", ""))
    return out

CUTS = dict(BASE, F3_sym=cut_F3)
PROP = dict(id="C10", items=[
    Contract(gamma3, [dict(a=a, b=b) for a in (0, 1) for b in (0, 1)] + [dict(a=0, b=1, itp="lin"), dict(a=0, b=1, auto=True)], cuts=CUTS, n=(25, 150)),
    Lemma(geometry)],
    trusted=["contract of F3_sym (a symmetric function of three modes) is established by C05"])
