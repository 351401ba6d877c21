"""C05: second- and third-order perturbation-theory kernels, tidal kernels."""
from .base import *
from .c09 import F2
from prop import Contract, Lemma
import solve

EPS = R("3e-14")
def dot(p, q): return p[0] * q[0] + p[1] * q[1] + p[2] * q[2]
def vec(D, n, zero=0.25):
    def gen(R_, N):
        v = [R_.rng.uniform(-2, 2) for _ in range(3)]
        return v
    h = D.array(n, 3, gen)
    return h, [h[0], h[1], h[2]]

def second(D, a):
    p2, q2, pq = D.real("p2", lo=0.01, hi=9.), D.real("q2", lo=0.01, hi=9.), D.real("pq", lo=-3., hi=3., pos=False)
    r = D.call("F2_sym_fast", a, p2, q2, pq)
    D.ensure("second-order kernel", r, F2(a, p2, q2, pq))
    D.ensure("symmetric", D.call("F2_sym_fast", a, q2, p2, pq), r)

def second_full(D, a):
    hp, p = vec(D, "p"); hq, q = vec(D, "q")
    D.require(tm.lt(R(0), dot(p, p))); D.require(tm.lt(R(0), dot(q, q)))
    r = D.call("F2_sym_full", a, hp, hq)
    D.ensure("second-order kernel of vectors", r, F2(a, dot(p, p), dot(q, q), dot(p, q)))
    D.ensure("symmetric", D.call("F2_sym_full", a, hq, hp), r)
    # opposite modes
    hm = D.built("m", [-x for x in p])
    D.ensure("vanishes for opposite modes", D.call("F2_sym_full", a, hp, hm), R(0), atol=1e-12)

def second_mu(D, a):
    p, q, mu = D.real("p", lo=0.1, hi=3.), D.real("q", lo=0.1, hi=3.), D.real("mu", lo=-1., hi=1., pos=False)
    r = D.call("F2_sym", a, p, q, mu)
    D.ensure("second-order kernel of lengths and cosine", r, F2(a, p * p, q * q, p * q * mu))
    D.ensure("symmetric", D.call("F2_sym", a, q, p, mu), r)
    D.ensure("vanishes for opposite modes", D.call("F2_sym", a, p, p, -1.), R(0), atol=1e-12)
    D.ensure("same in every parametrisation", r, D.call("F2_sym_fast", a, p * p, q * q, p * q * mu))

def gamma2tree(D, a):
    k1, k2, k3 = D.real("k1", lo=0.1, hi=3.), D.real("k2", lo=0.1, hi=3.), D.real("k3", lo=0.1, hi=3.)
    D.ensure("tree-level two-point propagator", D.call("gamma2_tree", a, k1, k2, k3), F2(a, k1 * k1, k2 * k2, (k3 * k3 - k1 * k1 - k2 * k2) / 2))
    D.ensure("symmetric", D.call("gamma2_tree", a, k2, k1, k3), F2(a, k1 * k1, k2 * k2, (k3 * k3 - k1 * k1 - k2 * k2) / 2))

def tidal(D):
    mu = D.real("mu", lo=-1., hi=1., pos=False)
    s2 = mu * mu - tm.div(R(1), R(3))
    D.ensure("S2", D.call("S2", mu), s2)
    D.ensure("D2", D.call("D2", mu), tm.div(R(2), R(7)) * (s2 - tm.div(R(2), R(3))))

# coupling matrix of order n: first index 1 = density, 2 = velocity
def sigma(n, a, b): return [[2 * n + 1, R(2)], [R(3), 2 * n]][a][b] / ((2 * n + 3) * (n - 1))
def sig(D, a, b):
    n = D.integer("n", lo=2, hi=9)
    D.ensure("coupling matrix", D.call("sigmaab", n, a + 1, b + 1), sigma(tm.i2r(n), a, b))

def add(p, q): return [u + v for u, v in zip(p, q)]
def small(v): return tm.and_(*[tm.lt(tm.absr(u), EPS) for u in v])
def rec3(a, p, q, r):
    """the recursion of order three with the pair (q,r) coupled first"""
    qr = add(q, r)
    s1 = sigma(R(3), a, 0); s2 = sigma(R(3), a, 1)
    t1, t2, d = dot(p, p), dot(qr, qr), dot(p, qr)
    g112 = 1 + d / t2            # alpha(qr, p)
    g121 = 1 + d / t1            # alpha(p, qr)
    g222 = d * (t1 + t2 + 2 * d) / (t1 * t2)     # 2 beta
    f = lambda b: F2(b, dot(q, q), dot(r, r), dot(q, r))
    return (s1 * g112 + s2 * g222) * f(1) + s1 * g121 * f(0)
def F3(a, p, q, r):
    return tm.ite(tm.or_(small(add(q, r)), small(add(p, add(q, r)))), R(0), rec3(a, p, q, r))
def F3sym(a, p, q, r): return (F3(a, p, q, r) + F3(a, r, p, q) + F3(a, q, r, p)) / 3

def three(D):
    r = [vec(D, n) for n in "pqr"]
    for _, v in r: D.require(tm.lt(R(0), dot(v, v)))
    return [h for h, _ in r], [v for _, v in r]

def third(D, a):
    h, (p, q, r) = three(D)
    D.ensure("third-order recursion", D.call("F3", a, *h), F3(a, p, q, r))

def third_sym(D, a):
    h, (p, q, r) = three(D)
    v = D.call("F3_sym", a, *h)
    D.ensure("third-order kernel is the mean over the coupled pair", v, F3sym(a, p, q, r), rtol=1e-9)

def sums(p, q, r): return [add(p, q), add(q, r), add(p, r), add(p, add(q, r))]

def third_perm(D, a, perm):
    """symmetric under exchange of two modes (any permutation is a product of those)"""
    h, v = three(D)
    w = D.call("F3_sym", a, *h)
    D.ensure("invariant under permutation %s" % (perm,), D.call("F3_sym", a, *[h[i] for i in perm]), w, rtol=1e-9)

def third_scale(D, a):
    h, (p, q, r) = three(D)
    lam = D.real("lam", lo=0.2, hi=5.)
    hl, vl = [], []
    for n, src in zip("pqr", (p, q, r)): hl.append(D.built(n + "l", [lam * x for x in src]))
    for s in sums(p, q, r)[1::2]:
        D.require(tm.not_(small(s))); D.require(tm.not_(small([lam * x for x in s])))
        D.require(tm.lt(R(0), dot(s, s)))
    # F3_sym is the mean of three such terms (contract of third_sym)
    D.ensure("homogeneous of degree zero", D.call("F3", a, *hl), D.call("F3", a, *h), rtol=1e-9)

def third_zero(D, a):
    """where the three modes add up to nothing the kernel vanishes; where the coupled pair is opposite its term is dropped"""
    p, q = D.array("p", 3, lambda R_, n: [R_.rng.randint(-64, 64) / 16. for _ in range(3)]), D.array("q", 3, lambda R_, n: [R_.rng.randint(-64, 64) / 16. for _ in range(3)])
    r = D.built("r", [-(p[i] + q[i]) for i in range(3)])
    D.ensure("vanishes when the modes add up to zero", D.call("F3_sym", a, p, q, r), R(0))

def third_pair(D, a):
    """one pair of opposite modes: only the two other pairs contribute"""
    p, q = D.array("p", 3), D.array("q", 3)
    r = D.built("r", [-q[i] for i in range(3)])
    P, Q_, R_ = [[h[i] for i in range(3)] for h in (p, q, r)]
    for v in (P, Q_, R_): D.require(tm.lt(R(0), dot(v, v)))
    for s in (add(P, Q_), add(P, R_)): D.require(tm.not_(small(s)))
    D.require(tm.not_(small(P)))
    D.ensure("term of the opposite pair dropped", D.call("F3", a, p, q, r), R(0))
    D.ensure("other pairs kept", D.call("F3_sym", a, p, q, r), (rec3(a, R_, P, Q_) + rec3(a, Q_, R_, P)) / 3, rtol=1e-9)

def halves(ctx):
    """facts about the specification: F2 symmetric, zero for opposite modes; the recursion is symmetric in the pair it couples,
    so the mean over the three pairs is the mean over the six orderings"""
    import sympy as sp
    V = [sp.symbols("%s0:3" % n) for n in "pqr"]
    out = []
    import terms
    def F2s(a, p2, q2, pq): return sp.Rational((5, 3)[a], 7) + pq / 2 * (1 / p2 + 1 / q2) + sp.Rational((2, 4)[a], 7) * pq**2 / (p2 * q2)
    for a in (0, 1):
        x, y, z = sp.symbols("x y z", positive=True)
        out.append(("second-order kernel %d symmetric" % a, "proved" if sp.simplify(F2s(a, x, y, z) - F2s(a, y, x, z)) == 0 else "violated", "sympy", ""))
        out.append(("second-order kernel %d zero for opposite modes" % a, "proved" if sp.simplify(F2s(a, x, x, -x)) == 0 else "violated", "sympy", ""))
        # squeezed identity: the angular average of F2 has its standard value
        m = sp.symbols("m")
        av = sp.integrate(F2s(a, x**2, y**2, x * y * m), (m, -1, 1)) / 2
        out.append(("second-order kernel %d: angular average" % a, "proved" if sp.simplify(av - sp.Rational((17, 13)[a], 21)) == 0 else "violated", "sympy", str(av)))
    return out

PERMS = [(1, 0, 2), (0, 2, 1), (2, 1, 0)]
PROP = dict(id="C05", items=[
    Contract(second, [dict(a=a) for a in (0, 1)]), Contract(second_full, [dict(a=a) for a in (0, 1)]),
    Contract(second_mu, [dict(a=a) for a in (0, 1)]), Contract(gamma2tree, [dict(a=a) for a in (0, 1)]), Contract(tidal),
    Contract(sig, [dict(a=a, b=b) for a in (0, 1) for b in (0, 1)]),
    Contract(third, [dict(a=a) for a in (0, 1)]), Contract(third_sym, [dict(a=a) for a in (0, 1)]),
    Contract(third_perm, [dict(a=a, perm=p) for a in (0, 1) for p in PERMS], lim=600), Contract(third_scale, [dict(a=a) for a in (0, 1)]),
    Contract(third_zero, [dict(a=a) for a in (0, 1)]), Contract(third_pair, [dict(a=a) for a in (0, 1)]),
    Lemma(halves)])
