"""C14: B-type redshift-space correction."""
from .base import *
from .c09 import pairs
from prop import Contract, Lemma

# (n, a, b): a, b = 1 for a density-velocity, 2 for a velocity-velocity spectrum; first for k-q, second for q
NAB = [(1, 1, 1), (1, 1, 2), (1, 2, 1), (1, 2, 2), (2, 1, 1), (2, 1, 2), (2, 2, 1), (2, 2, 2), (3, 1, 2), (3, 2, 1), (3, 2, 2), (4, 2, 2)]
def kernels(x, m, xmu):
    """Taruya, Nishimichi & Saito 2010, eq. A4, divided by (1 + x^2 - 2 mu x)"""
    x2, x3, x4 = x * x, x * x * x, x * x * x * x
    m2, m4 = m * m, m * m * m * m
    u = m2 - 1
    K = [x2 * u / 2,
         x2 * 3 * u * u / 8,
         x4 * 3 * u * u / xmu / 8,
         x4 * 5 * u * u * u / xmu / 16,
         x * (x + 2 * m - 3 * x * m2) / 2,
         -3 * x * u * (-x - 2 * m + 5 * x * m2) / 4,
         x2 * 3 * u * (-2 + x2 + 6 * x * m - 5 * x2 * m2) / xmu / 4,
         -3 * x2 * u * u * (6 - 5 * x2 - 30 * x * m + 35 * x2 * m2) / xmu / 16,
         x * (4 * m * (3 - 5 * m2) + x * (3 - 30 * m2 + 35 * m4)) / 8,
         x * (-8 * m + x * (-12 + 36 * m2 + 12 * x * m * (3 - 5 * m2) + x2 * (3 - 30 * m2 + 35 * m4))) / xmu / 8,
         x * 3 * u * (-8 * m + x * (-12 + 60 * m2 + 20 * x * m * (3 - 7 * m2) + 5 * x2 * (1 - 14 * m2 + 21 * m4))) / xmu / 16,
         x * (8 * m * (-3 + 5 * m2) - 6 * x * (3 - 30 * m2 + 35 * m4) + 6 * x2 * m * (15 - 70 * m2 + 63 * m4) + x3 * (5 - 21 * m2 * (5 - 15 * m2 + 11 * m4))) / xmu / 16]
    return [k / xmu for k in K]
# stored column: (components, sign)
COLUMNS = [((0,), 1), ((1, 2), -1), ((3,), 1), ((4,), 1), ((5, 6), -1), ((7,), 1), ((8, 9), -1), ((10,), 1), ((11,), 1)]

def component(c, k, Q, M, dt, tt, itp):
    n, a, b = NAB[c]
    A, B = (dt, tt)[a - 1], (dt, tt)[b - 1]
    def e(i, x, q, kq, mu): return x * kernels(x, mu, 1 + x * x - 2 * mu * x)[c] * A.P(kq, itp) * B.P(q, itp)
    return pairs(k, Q, M, e) * k * k * k / (2 * tm.PI * tm.PI)

def calc(D, itp, swap=False, cols=range(9), order=("dt", "tt")):
    tab, dt, tt = Tab(D), Tab(D, name="dt"), Tab(D, name="tt")
    tab.set()
    Q = qsetting(D, "set_precision_B_q", lo=1e-3, hi=3., nhi=4)
    nmu = D.integer("nmu", lo=1, hi=4)
    D.call("set_precision_B_mu", nmu, itp)
    M = QuadMu(nmu)
    nk = D.integer("nk", lo=1, hi=3)
    k = D.array("k", nk, lambda R_, n: [R_.rng.uniform(0.02, 1.) for _ in range(n)])
    lin, sig, B = D.array("lin", nk), D.array("sig", nk), D.array("B", tm.mul(nk, I(9)))
    # spectra of other field pairs do not matter
    D.call("set_spectra_B", "delta", "delta", tab.n, tab.k, tab.pk)
    for o in order:
        if o == "dt": D.call("set_spectra_B", *(("theta", "delta") if swap else ("delta", "theta")), dt.n, dt.k, dt.pk)
        else: D.call("set_spectra_B", "theta", "theta", tt.n, tt.k, tt.pk)
    D.call("set_spectra_B", "delta", "delta", tab.n, tab.k, tab.pk)
    D.call("set_terms_B", nk, k, lin, sig, B)
    D.call("run_terms_B", 2)
    for c in cols:
        comps, sign = COLUMNS[c]
        def f(i, comps=comps, sign=sign, c=c):
            if not D.real_mode: D.st.facts = D.st.facts + (tm.lt(R(0), k[i]),); D.pos.add(k[i])
            s = R(0)
            for m in comps: s = s + component(m, k[i], Q, M, dt, tt, INTERP[itp])
            return D.out(B, tm.add(tm.mul(i, I(9)), I(c))), s * sign
        D.ensure_all("B[%d]" % c, nk, f, atol=None)
    D.freed()

def projection(ctx):
    """the kernels are the coefficients of the powers of the line-of-sight cosine of the product of the two couplings.

    F(q) = (q_z / q^2) [P_dt(q) + f (q_z/q)^2 P_tt(q)]; B = (k mu f)^2 int F(q) F(k-q); averaged over the azimuth of q around k.
    The n-th power of mu^2 with `a`,`b` the spectra at k-q and q carries (-f)^(a+b)."""
    import sympy as sp
    x, m, M = sp.symbols("x m M", positive=True)
    X2, M2 = sp.symbols("X2 M2")     # odd powers of cos(phi) average to zero
    out = []
    xmu = 1 + x ** 2 - 2 * m * x
    # along the line of sight: q_z = x (m M + sqrt(1-m^2) sqrt(1-M^2) c); (k-q)_z = M - q_z
    c = sp.symbols("c")
    def average(e):
        """<c^2n> = (2n-1)!!/(2n)!!, with s^2 -> (1-m^2)(1-M^2)"""
        e = sp.Poly(sp.expand(e), c)
        r = 0
        for (n,), co in e.terms():
            if n % 2: continue
            r += co * ((1 - m ** 2) * (1 - M ** 2)) ** (n // 2) * sp.factorial2(n - 1) / sp.factorial2(n) if n else co
        return sp.expand(r)
    qz = x * m * M + x * c
    kz = M - qz
    xs, ms, xm = tm.var("x"), tm.var("mu"), tm.var("xmu")
    spec = kernels(xs, ms, xm)
    def conv(t):
        return tm.evaluate(t, {"x": x, "mu": m, "xmu": xmu}, SymM())
    for a in (1, 2):
        for b in (1, 2):
            # unit q: x = |q|/k ; the integrand of x^2 dx dmu times M^2 and P P ; F(q) ~ qz/x^2 (qz^2/x^2 if tt)
            e = kz ** (2 * a - 1) * qz ** (2 * b - 1)
            av = average(e) * M ** 2
            av = sp.Poly(av, M)
            norm = x ** 2 / (xmu ** a * x ** (2 * b))
            for n in range(1, 5):
                want = sp.together(av.coeff_monomial(M ** (2 * n)) * norm)
                idx = NAB.index((n, a, b)) if (n, a, b) in NAB else None
                # the library integrates x d(log x) kernel = dx kernel
                got = conv(spec[idx]) * (-1) ** (a + b) if idx is not None else sp.Integer(0)
                d = sp.simplify(sp.together(want - got))
                out.append(("B kernel n=%d a=%d b=%d is the projection of the product of couplings" % (n, a, b), "proved" if d == 0 else "violated", "computer algebra", str(d)[:200]))
    # the stored columns: sum over components of the same (power of cosine, power of f), with the sign (-1)^(a+b)
    for comps, sign in COLUMNS:
        ok = len({(NAB[i][0], NAB[i][1] + NAB[i][2]) for i in comps}) == 1 and all((-1) ** (NAB[i][1] + NAB[i][2]) == sign for i in comps)
        out.append(("column collects one power of f and mu %s" % (comps,), "proved" if ok else "violated", "enumeration", ""))
    return out
class SymM(object):
    def __getattr__(self, n):
        import sympy
        return sympy.Integer if n == "mpf" else getattr(sympy, n)

PROP = dict(id="C14", items=[
    Contract(calc, [dict(itp="lin", cols=(0, 1)), dict(itp="lin", swap=True, cols=(2, 3, 4)), dict(itp="lin", cols=(5, 6)), dict(itp="lin", order=("tt", "dt"), cols=(7, 8)),
                    dict(itp="poly", cols=(0, 1, 2)), dict(itp="poly", swap=True, order=("tt", "dt"), cols=(3, 4, 5, 6)), dict(itp="poly", cols=(7, 8))], n=(25, 150)),
    Lemma(projection)])
