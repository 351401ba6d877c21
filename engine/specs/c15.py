"""C15: one-loop bias terms."""
from .base import *
from .c09 import F2, pairs, mu_range
from prop import Contract, Lemma
import solve

def S2(m): return m * m - tm.div(R(1), R(3))
def D2(m): return tm.div(R(2), R(7)) * (S2(m) - tm.div(R(2), R(3)))
def fr(a, b): return tm.div(R(a), R(b))
def k_b2(a, q, p, mu, nu, Pq, Pp): return Pq * Pp * F2(a, q * q, p * p, nu * q * p)
def k_bs2(a, q, p, mu, nu, Pq, Pp): return Pq * Pp * F2(a, q * q, p * p, nu * q * p) * S2(nu)
def k_b22(a, q, p, mu, nu, Pq, Pp): return Pq * (Pp - Pq) / 2
def k_b2s2(a, q, p, mu, nu, Pq, Pp): return -Pq * (fr(2, 3) * Pq - Pp * S2(nu)) / 2
def k_bs22(a, q, p, mu, nu, Pq, Pp): return -Pq * (fr(4, 9) * Pq - Pp * S2(nu) * S2(nu)) / 2
def k_s3(a, q, p, mu, nu, Pq, Pp): return fr(105, 16) * Pq * (D2(mu) * S2(nu) + fr(8, 63))
# column, field, kernel, symmetric in the two modes
COLS = [("pk_b2d", 0, k_b2, 1), ("pk_bs2d", 0, k_bs2, 1), ("pk_b2t", 1, k_b2, 1), ("pk_bs2t", 1, k_bs2, 1),
        ("pk_b22", 0, k_b22, 0), ("pk_b2s2", 0, k_b2s2, 0), ("pk_bs22", 0, k_bs22, 0), ("sigma3sq", 0, k_s3, 0)]

def value(k, Q, M, tab, a, ker, half, itp, mitp):
    def e(i, x, q, kq, mu):
        nu = (k * k - kq * kq - q * q) / (2 * q * kq)
        return tm.pw(x, 3) * (2 if half else 1) * ker(a, q, kq, mu, nu, tab.P(q, INTERP[itp]), tab.P(kq, INTERP[mitp]))
    return pairs(k, Q, M, e, half=bool(half)) * k * k * k / (4 * tm.PI * tm.PI)

def setup(D, itp, mitp, nhi=4):
    tab = Tab(D)
    Q = None
    tab.set()
    Q = qsetting(D, "set_precision_bias_1loop_q", itp=itp, lo=1e-3, hi=3., nhi=nhi)
    nmu = D.integer("nmu", lo=1, hi=4)
    D.call("set_precision_bias_1loop_mu", nmu, mitp)
    return tab, Q, QuadMu(nmu)

NAMES = {"k_b2": "kernel_b2", "k_bs2": "kernel_bs2", "k_b22": "kernel_b22", "k_b2s2": "kernel_b2s2", "k_bs22": "kernel_bs22", "k_s3": "kernel_sigma3sq"}

def bias(D, col, itp="poly", mitp="lin", other=None):
    """all columns of a run over a list of wavenumbers; the column col is checked"""
    tab, Q, M = setup(D, itp, mitp)
    nk = D.integer("nk", lo=1, hi=3)
    k = D.array("k", nk, lambda R_, n: [R_.rng.uniform(0.02, 1.) for _ in range(n)])
    if not D.real_mode:
        i0 = tm.fresh("kk", "I")
    D.call("set_precision_bias_1loop_pk_lin", "poly")
    cols = [D.array(n, nk) for n in ("pk_lin", "sigmad2") + tuple(c[0] for c in COLS)]
    D.call("set_terms_bias_1loop", nk, k, *cols)
    if not D.real_mode:
        # every wavenumber of the list is positive
        D.st.quantify.append((k, lambda v: tm.lt(R(0), v))) if hasattr(D.st, "quantify") else None
    D.call("run_terms_bias_1loop", 2)
    c = COLS[col]
    def f(i):
        if not D.real_mode: D.st.facts = D.st.facts + (tm.lt(R(0), k[i]),); D.pos.add(k[i])
        return D.out(cols[2 + col], i), value(k[i], Q, M, tab, c[1], c[2], c[3], itp, mitp)
    D.ensure_all(c[0], nk, f)
    D.freed()

def subtraction(ctx):
    """the constant-subtracted kernels vanish as the loop mode gets large: with P(kq)=P(q) and the opposite modes' cosine -1"""
    out = []
    P, q, mu = tm.var("P"), tm.var("q"), tm.var("mu")
    for nm, k in (("b22", k_b22), ("b2s2", k_b2s2), ("bs22", k_bs22)):
        v = k(0, q, q, mu, R(-1), P, P)
        out.append(("%s vanishes when the other mode is opposite and as strong" % nm, "proved" if solve.entails([], tm.eq(v, R(0)), 3000) else "undecided", "z3", ""))
    # sigma3sq: for a large loop mode the other mode is opposite to it; the mean of D2(mu) S2(-1) + 8/63 over directions is zero
    import lemmas
    from fractions import Fraction as Fr
    Dd = lemmas.pscale({2: Fr(1), 0: Fr(-1)}, Fr(2, 7))
    av = sum(v / (n + 1) for n, v in Dd.items() if n % 2 == 0) * Fr(2, 3)
    out.append(("sigma3sq kernel averages to zero for a large loop mode", "proved" if av + Fr(8, 63) == 0 else "violated", "exact rational", str(av)))
    return out

PROP = dict(id="C15", items=[
    Contract(bias, [dict(col=i) for i in range(8)] + [dict(col=1, itp="lin", mitp="poly"), dict(col=6, itp="lin", mitp="poly")], n=(25, 150)),
    Lemma(subtraction)])
