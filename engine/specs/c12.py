"""C12: one-loop A correction."""
from .base import *
from .c09 import pairs, mu_range
from prop import Contract, Lemma
import lemmas
from fractions import Fraction as Fr

def KA(x, m):
    """Taruya, Nishimichi & Saito 2010, eq. A3: kernels of P(k) P(|k-q|)"""
    x2, x3, x4 = x * x, x * x * x, x * x * x * x
    m2 = m * m; m3 = m2 * m; m4 = m2 * m2
    a1 = x4 / 14 * (m2 - 1) * (-1 + 7 * x * m - 6 * m2)
    return [-x3 / 7 * (m + 6 * m3 + x2 * m * (-3 + 10 * m2) + x * (-3 + m2 - 12 * m4)), a1,
            x3 / 14 * (x2 * m * (13 - 41 * m2) - 4 * (m + 6 * m3) + x * (5 + 9 * m2 + 42 * m4)), a1,
            x3 / 14 * (1 - 7 * x * m + 6 * m2) * (-2 * m + x * (-1 + 3 * m2))]
def KT(x, m):
    """kernels of P(q) P(|k-q|)"""
    m2 = m * m; m4 = m2 * m2; x2 = x * x
    return [(m + x - 2 * x * m2) * (3 * x + 7 * m - 10 * x * m2) / 7, x / 14 * (m2 - 1) * (3 * x + 7 * m - 10 * x * m2),
            (28 * m2 + x * m * (25 - 81 * m2) + x2 * (1 - 27 * m2 + 54 * m4)) / 14, x / 14 * (1 - m2) * (x - 7 * m + 6 * x * m2),
            (x - 7 * m + 6 * x * m2) * (-2 * m - x + 3 * x * m2) / 14]
# closed form of the kernels of P(k) P(q): -1/(c x^n) (2 x P(x) + Q(x) L), L = log|(x+1)/(x-1)|
def poly(x, c):
    r = R(0)
    for n, v in c.items(): r = r + (tm.pw(x, n) * Fr(v) if n else R(v))
    return r
def pm(*ps):
    r = {0: Fr(1)}
    for p in ps: r = lemmas.pmul(r, {k: Fr(v) for k, v in p.items()})
    return r
U = {2: 1, 0: -1}
CLOSED = {0: (Fr(-1, 84), 1, {0: 19, 2: -24, 4: 9}, lemmas.pscale(pm(U, U, U), Fr(-9))),
          1: (Fr(1, 112), 3, pm({2: 1, 0: 1}, {0: 3, 2: -14, 4: 3}), lemmas.pscale(pm(U, U, U, U), Fr(-3))),
          2: (Fr(1, 336), 3, {0: 9, 2: -185, 4: 159, 6: -63}, lemmas.pscale(pm(U, U, U, {2: 7, 0: 1}), Fr(9))),
          4: (Fr(1, 336), 3, {0: 9, 2: -109, 4: 63, 6: -27}, lemmas.pscale(pm(U, U, U, {2: 3, 0: 1}), Fr(9)))}
SMALL = {0: {8: Fr(8, 735), 6: Fr(24, 245), 4: Fr(-24, 35), 2: Fr(8, 7), 0: Fr(-2, 3)},
         1: {8: Fr(-16, 8085), 6: Fr(-16, 735), 4: Fr(48, 245), 2: Fr(-16, 35)},
         2: {8: Fr(32, 1617), 6: Fr(128, 735), 4: Fr(-288, 245), 2: Fr(64, 35), 0: Fr(-4, 3)},
         4: {8: Fr(24, 2695), 6: Fr(8, 105), 4: Fr(-24, 49), 2: Fr(24, 35), 0: Fr(-2, 3)}}
LARGE = {0: {0: Fr(2, 105), 2: Fr(-24, 245), 4: Fr(-8, 735), 6: Fr(-8, 2695), 8: Fr(-8, 7007)},
         1: {0: Fr(-16, 35), 2: Fr(48, 245), 4: Fr(-16, 735), 6: Fr(-16, 8085), 8: Fr(-16, 35035)},
         2: {0: Fr(-44, 105), 4: Fr(-32, 735), 6: Fr(-64, 8085), 8: Fr(-96, 35035)},
         4: {0: Fr(-46, 105), 2: Fr(24, 245), 4: Fr(-8, 245), 6: Fr(-8, 1617), 8: Fr(-8, 5005)}}
EPS = R("3e-14")     # the library drops the logarithm this close to q = k, where its factor vanishes
def ka(c, x, eps=None):
    c = 1 if c == 3 else c
    f, n, p, q = CLOSED[c]
    L = tm.log(tm.absr((x + 1) / (x - 1)))
    if eps is not None: L = tm.ite(tm.lt(eps, tm.absr(x - 1)), L, R(0))
    closed = (2 * x * poly(x, p) + poly(x, q) * L) * R(f) / tm.pw(x, n)
    small = poly(x, SMALL[c])
    large = poly(1 / x, LARGE[c])
    return tm.ite(tm.lt(x, R("1e-4")), small, tm.ite(tm.lt(R(100), x), large, closed))
def ka_true(c, x):
    """one function, evaluated by whichever expression is accurate"""
    c = 1 if c == 3 else c
    f, n, p, q = CLOSED[c]
    closed = (2 * x * poly(x, p) + poly(x, q) * tm.log(tm.absr((x + 1) / (x - 1)))) * R(f) / tm.pw(x, n)
    return closed

def value(k, Q, M, tab, c, itp, mitp, a):
    P = lambda y: tab.P(y, INTERP[itp])
    xmin, xmax = Q.q(IZERO) / k, Q.q(tm.sub(Q.n, IONE)) / k
    def term(i):
        q = Q.q(i); x = q / k
        lo, hi, empty = mu_range(x, xmin, xmax, half=False)
        def inner(j):
            mu = M.mu(j, lo, hi)
            xmu = 1 + x * x - 2 * mu * x
            return (KA(x, mu)[c] * P(k) + KT(x, mu)[c] * P(q)) * tab.P(k * tm.sqrt(xmu), INTERP[mitp]) / (xmu * xmu) * M.w(j, lo, hi)
        return tm.ite(empty, R(0), (tm.asum(0, M.n, inner) + a(c, x) * P(k) * P(q)) * x * Q.w(i))
    return tm.asum(0, Q.n, term) * k * k * k / (4 * tm.PI * tm.PI)

def near(R_):
    u = R_.rng.random()
    k = R_.env.get("k")
    k = k[0] if isinstance(k, list) else R_.rng.uniform(0.02, 1)
    f = math.exp(R_.rng.uniform(math.log(0.02), math.log(10))) if u < 0.6 else (1 + R_.rng.uniform(-0.01, 0.01) if u < 0.7 else (math.exp(R_.rng.uniform(math.log(60), math.log(300))) if u < 0.85 else math.exp(R_.rng.uniform(math.log(3e-5), math.log(3e-4)))))
    return k * f

def calc(D, itp="poly", mitp="lin", cols=range(5)):
    tab = Tab(D)
    tab.set()
    nk = D.integer("nk", lo=1, hi=3)
    k = D.array("k", nk, lambda R_, n: [R_.rng.uniform(0.02, 1.) for _ in range(n)])
    Q = qsetting(D, "set_precision_A_1loop_q", itp=itp, lo=1e-6, hi=200., nhi=4, near=near)
    nmu = D.integer("nmu", lo=1, hi=4)
    D.call("set_precision_A_1loop_mu", nmu, mitp)
    M = QuadMu(nmu)
    lin, sig, A = D.array("lin", nk), D.array("sig", nk), D.array("A", tm.mul(nk, I(5)))
    D.call("set_terms_A_1loop", nk, k, lin, sig, A)
    D.call("run_terms_A_1loop", 2)
    for c in cols:
        def f(i, c=c):
            if not D.real_mode: D.st.facts = D.st.facts + (tm.lt(R(0), k[i]),); D.pos.add(k[i])
            # the coded logarithm is dropped at the very coincidence q = k (the factor in front of it vanishes there)
            v = value(k[i], Q, M, tab, c, itp, mitp, lambda c, x: ka(c, x, eps_of(D)))
            return D.out(A, tm.add(tm.mul(i, I(5)), I(c))), v
        D.ensure_all("A[%d]" % c, nk, f, rtol=1e-5, atol=None)
    D.freed()
def eps_of(D): return EPS

PROP = dict(id="C12", items=[Contract(calc, [dict(itp="poly", mitp="lin", cols=(0, 1)), dict(itp="poly", mitp="lin", cols=(2, 3, 4)), dict(itp="lin", mitp="poly", cols=(0, 1)), dict(itp="lin", mitp="poly", cols=(2, 3, 4))], n=(40, 200))])
