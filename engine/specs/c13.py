"""C13: A-type redshift-space correction at two loops."""
from .base import *
from .c09 import pairs
from .c05 import dot
from .c10 import vecof
from .c11 import OUT, nrm, neg
from prop import Contract, Lemma

# ------------------------------------------------------------------ projection kernels
def projection(x, m):
    """(density-velocity, velocity-density...) components; multiply b211, b221, b221, b212, b222, b222"""
    xmu = 1 + x * x - 2 * m * x
    A = [x * m, -x * x * (3 * x * m - 2) * (m * m - 1) / xmu / 2, x * (2 * m + x * (2 - 6 * m * m) + x * x * m * (5 * m * m - 3)) / xmu / 2]
    T = [x * x * (1 - x * m) / xmu, x * x * (3 * x * m - 1) * (m * m - 1) / xmu / 2, x * x * (-1 + 3 * x * m + 3 * m * m - 5 * x * m * m * m) / xmu / 2]
    return A + A, T + T
LABELS = ["211", "221", "221", "212", "222", "222"]
# stored column: components collected (power of f, power of mu^2): (1,1), (2,1), (2,2), (3,2), (3,3)
COLUMNS = [(0,), (1,), (2, 3), (4,), (5,)]

def azimuth(ctx):
    """the projection kernels are the azimuthal averages of the defining factors"""
    import sympy as sp
    x, m, M, f = sp.symbols("x m M f")
    c = sp.symbols("c")
    s2 = (1 - m**2) * (1 - M**2)
    pz = x * m * M + x * c                 # c = sqrt(s2) cos(phi)
    kz = M - pz
    xmu = 1 + x**2 - 2 * m * x
    def av(e):
        P = sp.Poly(sp.expand(e), c)
        r = 0
        for (n,), v in P.terms():
            if n % 2 == 0: r += v * s2**(n // 2) * sp.factorial2(n - 1) / sp.factorial2(n) if n else v
        return sp.expand(r)
    def spec(e):
        return sp.sympify(e)
    # evaluate the specification's kernels with sympy symbols
    class N(object): pass
    A = [x * m, -x * x * (3 * x * m - 2) * (m * m - 1) / xmu / 2, x * (2 * m + x * (2 - 6 * m * m) + x * x * m * (5 * m * m - 3)) / xmu / 2]
    T = [x * x * (1 - x * m) / xmu, x * x * (3 * x * m - 1) * (m * m - 1) / xmu / 2, x * x * (-1 + 3 * x * m + 3 * m * m - 5 * x * m * m * m) / xmu / 2]
    xv, mv = 0.37, -0.21
    sa, st = projection(R("0.37"), R("-0.21"))
    ok = all(abs(float(tm.evaluate(u, {})) - float(v.subs({x: xv, m: mv}))) < 1e-12 for u, v in zip(sa[:3] + st[:3], A + T))
    out = [("same kernels", "proved" if ok else "violated", "evaluation", "")]
    # mu * pz/p^2 * (1 + f kpz^2/kp^2), times x^2 (and the other factor (1 + f mu^2) of the third leg)
    def coeffs(w, den):
        P = sp.Poly(av(w), M)
        return {n: sp.cancel(P.coeff_monomial(M**n) / den) for n in range(0, 7)}
    for nm, K, first, second in (("A", A, M * pz, M * pz * kz**2), ("tA", T, M * kz * x**2, M * kz * pz**2)):
        d1 = 1 if nm == "A" else xmu
        d2 = xmu
        c1, c2 = coeffs(first, d1), coeffs(second, d2)
        good = sp.simplify(c1[2] - K[0]) == 0 and all(sp.simplify(c1[n]) == 0 for n in c1 if n != 2)
        out.append(("projection %s, first order" % nm, "proved" if good else "violated", "sympy", ""))
        good = sp.simplify(c2[2] - K[1]) == 0 and sp.simplify(c2[4] - K[2]) == 0 and all(sp.simplify(c2[n]) == 0 for n in c2 if n not in (2, 4))
        out.append(("projection %s, second order" % nm, "proved" if good else "violated", "sympy", ""))
    return out

def kernels(D):
    x, mu = D.real("x", lo=0.05, hi=20.), D.real("mu", lo=-1., hi=1., pos=False)
    D.require(tm.lt(R(0), 1 + x * x - 2 * mu * x))
    A, T = D.array("A", 6), D.array("T", 6)
    D.call("kernel_projection_A_tA", x, mu, A, T)
    a, t = projection(x, mu)
    for i in range(6):
        D.ensure("A[%d]" % i, D.out(A, i), a[i], atol=1e-13); D.ensure("tA[%d]" % i, D.out(T, i), t[i], atol=1e-13)

# ------------------------------------------------------------------ contracts of the bispectra (C11)
def cut_I(ex, st, a, node, fn):
    if len(a) != 11: return NotImplemented
    for i in range(8): ex.store(st, a[3 + i], tm.fn("BIS" + OUT[i][0], *a[:3]), node)
    return None
def b23(kind, vs, q, labs):
    legs = sorted(zip(vs, labs), key=lambda x: tm.numkey(list(x[0]) + [x[1]]))
    f = []
    for v, l in legs: f += list(v) + [l]
    return tm.fn(kind, *(f + list(q)))
def cut_II(ex, st, a, node, fn):
    """two functions of the loop mode and of the three legs with their labels, in any order"""
    if len(a) != 9: return NotImplemented
    vs = [vecof(ex, st, x, node) for x in a[:4]]
    labs = [ex.as_int(x) for x in a[4:7]]
    ex.store(st, a[7], b23("B222", vs[:3], vs[3], labs), node)
    ex.store(st, a[8], b23("B321", vs[:3], vs[3], labs), node)
    return None
CUTS = dict(BASE, bispectrum_1loop_I=cut_I, bispectrum_1loop_II_III=cut_II)

def realfns(D):
    import ctypes
    d = ctypes.c_double
    memo = {}
    def I8(i):
        def f(k, p, kp):
            key = (float(k), float(p), float(kp))
            if key not in memo:
                o = [d() for _ in range(8)]
                D.lib.bispectrum_1loop_I(d(key[0]), d(key[1]), d(key[2]), *[ctypes.byref(x) for x in o])
                memo[key] = [x.value for x in o]
            return memo[key][i]
        return f
    for i in range(8): D.env["fn:BIS" + OUT[i][0]] = I8(i)
    def II(j):
        def f(*v):
            v = [float(x) for x in v]
            arr = lambda x: (d * 3)(*x)
            o = [d(), d()]
            D.lib.bispectrum_1loop_II_III(arr(v[0:3]), arr(v[4:7]), arr(v[8:11]), arr(v[12:15]), int(v[3]), int(v[7]), int(v[11]), ctypes.byref(o[0]), ctypes.byref(o[1]))
            return o[j].value
        return f
    D.env["fn:B222"], D.env["fn:B321"] = II(0), II(1)

def calc(D, col, itp="poly", auto=False, part="both"):
    tab = Tab(D)
    tab.set()
    Q = qsetting(D, "set_precision_A_2loop_I_q", itp=itp, lo=1e-3, hi=3., nhi=4)
    nmu = D.integer("nmu", lo=1, hi=3)
    D.call("set_precision_A_2loop_I_mu", nmu, itp)
    M = QuadMu(nmu)
    uv = D.real("uv", lo=0.05, hi=2.)
    D.call("set_running_uvcutoff_bispectrum_1loop", uv)
    if auto:
        qmin, qmax = tab.k[0], tab.k[tm.sub(tab.n, IONE)]
        if not D.real_mode: D.require(tm.lt(qmin, qmax))
        D.call("set_precision_A_2loop_II_III_q", -1., -1., itp)
    else:
        qmin, qmax = D.real("pmin", lo=1e-2, hi=0.1), D.real("pmax", lo=0.3, hi=3.)
        D.require(tm.lt(qmin, qmax))
        D.call("set_precision_A_2loop_II_III_q", qmin, qmax, itp)
    if D.real_mode:
        D.call("set_precision_gamma1_1loop_q", 5, 1e-3, 5., "poly")
        for f in "dt": D.call("set_precision_gamma2%s_1loop_q" % f, 4, 1e-3, 5., "poly")
    nk = D.integer("nk", lo=1, hi=2)
    k = D.array("k", nk, lambda R_, n: [R_.rng.uniform(0.05, 0.6) for _ in range(n)])
    lin, sig, A = D.array("lin", nk), D.array("sig", nk), D.array("A", tm.mul(nk, I(5)))
    D.call("set_terms_A_2loop", nk, k, lin, sig, A)
    D.call("run_terms_A_2loop", 2)
    if D.real_mode:
        realfns(D)
        D.call("init_bispectrum_1loop_I")
    L = tm.log(qmax) - tm.log(qmin)
    def deterministic(kk):
        def e(i, x, q, kq, mu):
            a, t = projection(x, mu)
            r = R(0)
            for c in COLUMNS[col]:
                r = r + a[c] * tm.fn("BISb%sA" % LABELS[c], kk, q, kq) + t[c] * tm.fn("BISb%stA" % LABELS[c], kk, q, kq)
            return r * x
        return pairs(kk, Q, M, e)
    def montecarlo(kk):
        def f(n):
            u = [tm.fn("SUVx", n, I(d)) for d in range(5)]
            p, mu = tm.exp(tm.log(qmin) + L * u[0]), 2 * u[1] - 1
            q, th, ph = tm.exp(tm.log(qmin) + L * u[2]), tm.PI * u[3], 2 * tm.PI * u[4]
            x = p / kk
            P = [p * tm.sqrt(1 - mu * mu), R(0), p * mu]
            qq = [q * tm.sin(th) * tm.cos(ph), q * tm.sin(th) * tm.sin(ph), q * tm.cos(th)]
            K = [R(0), R(0), kk]
            KP = [K[i] - P[i] for i in range(3)]
            kp = kk * tm.sqrt(1 + x * x - 2 * x * mu)
            ex = (kk * kk * tab.sig(kk, uv) + p * p * tab.sig(p, uv) + kp * kp * tab.sig(kp, uv)) / 2
            a, t = projection(x, mu)
            r = R(0)
            for c in COLUMNS[col]:
                l1, l2 = [I(int(z) - 1) for z in LABELS[c][1:]]
                # labels belong to p, k-p, -k; in the second part p and k-p are exchanged
                s1 = b23("B222", (P, KP, neg(K)), qq, (I(1), l1, l2)) + b23("B321", (P, KP, neg(K)), qq, (I(1), l1, l2))
                s2 = b23("B222", (KP, P, neg(K)), qq, (I(1), l1, l2)) + b23("B321", (KP, P, neg(K)), qq, (I(1), l1, l2))
                r = r + a[c] * s1 + t[c] * s2
            jac = L * L * 2 * tm.PI * 2 * tm.PI * q * q * q * tm.sin(th)
            v = r * x * jac * tm.exp(-ex)
            return tm.ite(tm.or_(tm.lt(R("0.5") / x, mu), tm.le(R(100), ex)), R(0), v) * tm.fn("SUVw", n)
        return tm.asum(0, NSUV, f)
    def f(i):
        kk = k[i]
        if not D.real_mode: D.st.facts = D.st.facts + (tm.lt(R(0), kk),); D.pos.add(kk)
        s = deterministic(kk) + montecarlo(kk)
        return D.out(A, tm.add(tm.mul(i, I(5)), I(col))), s * kk * kk * kk / (2 * tm.PI * tm.PI)
    D.ensure_all("A[%d]" % col, nk, f, rtol=1e-6, atol=None)
    if D.real_mode: D.call("free_bispectrum_1loop_I")
    D.freed()

PROP = dict(id="C13", items=[Contract(kernels), Lemma(azimuth),
    Contract(calc, [dict(col=c) for c in range(5)] + [dict(col=2, itp="lin", auto=True)], cuts=CUTS, n=(12, 80))],
    trusted=["contracts of bispectrum_1loop_I and bispectrum_1loop_II_III are established by C11"])
