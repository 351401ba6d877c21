"""C07: two-loop one-point propagator."""
from .base import *
from . import c06
from prop import Contract, Lemma
from fractions import Fraction as Fr
import lemmas

def polyN(a):
    """numerator 2(1+y2)(p(y) + q(y) log y) and denominator scale"""
    if a == 0: return [-11191, 118054, -18215, 0, 18215, -118054, 11191], [3467, -790, 3467], R(429975)
    return [-54373, 562162, -408245, 0, 408245, -562162, 54373], [14561, -10690, 14561], R(4729725)
def beta_closed(a, y):
    p, q, s = polyN(a)
    y2 = y * y
    P = R(0)
    for i, c in enumerate(p): P = P + tm.pw(y2, i) * c if i else R(c)
    Q = (R(q[0]) + y2 * q[1] + y2 * y2 * q[2]) * 120 * y2 * y2
    return (1 + y2) * 2 * (P + Q * tm.log(y)) / (s * tm.pw(y2 - 1, 7))
def beta_far(a, d):
    d2 = d * d
    if a == 0: return R("120424") / 3009825 + d2 * 2792 / 429975 + d2 * d * 2792 / 429975 + d2 * d2 * R("392606") / R("99324225")
    return R(594232) / 33108075 + d2 * 91912 / 33108075 + d2 * d * 91912 / 33108075 + d2 * d2 * R(1818458) / R(1092566475)
def beta_near(a, y):
    if a == 0: return R(22382) / 429975 - y * y * 57052 / 429975
    return R(9886) / 429975 - y * y * 254356 / 4729725
def beta_y(q1, q2): return tm.absr((q1 - q2) / (q1 + q2))
def beta_pw(a, q1, q2):
    y = beta_y(q1, q2)
    return tm.ite(tm.lt(tm.absr(1 - y), R("0.05")), beta_far(a, 1 - y), tm.ite(tm.lt(y, R("0.01")), beta_near(a, y), beta_closed(a, y)))
def beta_true(a, q1, q2):
    y = beta_y(q1, q2)
    return tm.ite(tm.lt(R("1e-10"), y), tm.ite(tm.lt(y, 1 - R("1e-4")), beta_closed(a, y), beta_far(a, 1 - y)), beta_near(a, y))
def cc(a, qs):
    q2 = qs * qs; q3 = q2 * qs; q4 = q2 * q2
    if a == 0: return R("0.02088557981734545") / (q4 * R("35.09866396385646") + q2 * R("4.133811416743832") + 1) - q3 * R("0.076100391588544") / (q4 * q2 * R("77.79670692480381") + 1)
    return -R("0.008217140060512867") / (q4 * R("42.14072830553836") + q2 * R("1.367564560397748") + 1) + q3 * R("0.01099093588476197") / (q4 * q4 * R("28.490424851390667") + 1)
def dd(a, qr):
    q2 = qr * qr; q4 = q2 * q2; q5 = q4 * qr
    if a == 0: return -R("0.022168478217299517") / (q4 * R("7.030631093970638") + q2 * R("2.457866449142683") + 1) + q2 * R("0.009267495321465601") / (q4 * q4 * q2 * R("4.11633699497035") + 1)
    return R("0.008023147297149955") / (q5 * R("2.238261369090066") + 1) - q2 * R("0.006173880966928251") / (q5 * R("0.4711737436482179") + 1)
def delta(a, qs):
    s = qs * tm.sqrt(R(2))
    q2 = s * s; q4 = q2 * q2
    if a == 0: return q4 * R("0.3191221482038663") / (q4 * R("1.3549058352752525") + 1) + R("1.2805575495849764") / (q4 * R("18.192939946270577") + q2 * R("3.98817716852858") + 1) + R("0.764469131436698")
    return R("1.528058751211026") * (q4 * R("2.4414566000839355") + q2 * R("1.8616263354608626")) / (q4 * R("2.4414566000839355") + 1) + R("2.5227965281961247") / (q4 * R("0.0028106312591877226") + q2 * R("1.0332351481570086") + 1) - R("0.528058751211026")
def kernel(a, x1, x2, beta=beta_pw):
    qr = tm.sqrt(x1 * x1 + x2 * x2)
    qs = x1 * x2 / qr
    return -(beta(a, x1, x2) - cc(a, qs) - dd(a, qr)) * delta(a, qs) / (x1 * x1 + x2 * x2)
def scale(a, x1, x2):
    qr = tm.sqrt(x1 * x1 + x2 * x2)
    return tm.absr(delta(a, x1 * x2 / qr)) * R("0.03") / (x1 * x1 + x2 * x2)
def two(a, k, Q, tab, itp, K):
    def inner(i): return tm.asum(0, Q.n, lambda j: Q.w(j) * K(a, Q.q(i) / k, Q.q(j) / k) * tab.P(Q.q(j), itp) * tm.pw(Q.q(i), 3) * tm.pw(Q.q(j), 3))
    return tm.asum(0, Q.n, lambda i: Q.w(i) * tab.P(Q.q(i), itp) * inner(i)) / (4 * tm.pw(tm.PI, 4))

def pair(R_):
    """one or two nodes so that the ratio of the loop wavenumbers is under control"""
    R_.env["nq"] = R_.rng.choice([1, 2, 2, 2, 3])
    r = 2 * R_.rng.random() ** 2 * 4
    u = R_.rng.random()
    if u < 0.3: f = math.exp(R_.rng.uniform(1e-3, 0.07))
    elif u < 0.6: f = math.exp(R_.rng.uniform(5, 9))
    else: f = math.exp(R_.rng.uniform(0.1, 5))
    q = R_.env["k"] * math.exp(R_.rng.uniform(-3, 2))
    R_.env["qmin"], R_.env["qmax"] = q / f ** 0.5, q * f ** 0.5

def gamma1_2loop(D, a, itp="poly"):
    tab = Tab(D)
    k, k0 = D.real("k", lo=0.01, hi=1.), D.real("k0", lo=0.01, hi=1.)
    tab.set()
    if D.real_mode: D.sample_only(pair)
    Q = qsetting(D, "set_precision_gamma1_2loop_q", itp=itp)
    D.call("init_gamma1_2loop")
    D.call("gamma1_2loop", a, k0)
    r = D.call("gamma1_2loop", a, k)
    D.call("free_gamma1_2loop")
    tot = lambda K: two(a, k, Q, tab, INTERP[itp], K)
    D.ensure("gamma1_2loop", r, tot(kernel), true=lambda: tot(lambda a, x, y: kernel(a, x, y, beta_true)), rtol=1e-7, atol=tot(lambda a, x, y: scale(a, x, y) * R("3e-6")))

def calc_gamma1(D, a, b):
    tab = Tab(D)
    k, k0 = D.real("k", lo=0.01, hi=1.), D.real("k0", lo=0.01, hi=1.)
    tab.set()
    if D.real_mode: D.sample_only(pair)
    Q2 = qsetting(D, "set_precision_gamma1_2loop_q")
    Q1 = qsetting(D, "set_precision_gamma1_1loop_q", name="p", itp="lin")
    o = [D.array("o%d" % i, 1) for i in range(4)]
    D.call("init_gamma1")
    D.call("calc_pk_gamma1_2loop", a, b, k0, *o)
    D.call("calc_pk_gamma1_2loop", a, b, k, *o)
    D.call("free_gamma1")
    def one(c, K=0):
        s = tm.asum(0, Q1.n, lambda i: c06.KER[c][K](Q1.q(i) / k) * tab.P(Q1.q(i), 0) * Q1.w(i))
        return s * k * k * k / (2 * tm.PI * tm.PI)
    for c, nm, i1, i2 in ((a, "a", 0, 1), (b, "b", 2, 3)):
        D.ensure("gamma1%s_1loop" % nm, D.out(o[i1], 0), one(c), rtol=1e-4)
        D.ensure("gamma1%s_2loop" % nm, D.out(o[i2], 0), two(c, k, Q2, tab, 1, kernel) + one(c) * one(c) / 2, rtol=1e-4, atol=two(c, k, Q2, tab, 1, scale) * R("1e-4"))

def symmetric(D, a):
    q1, q2, k = D.real("q1", lo=1e-3, hi=10.), D.real("q2", lo=1e-3, hi=10.), D.real("k", lo=1e-2, hi=1.)
    D.ensure("symmetric", D.call("integ_gamma1_2loop", a, k, q1, q2), D.call("integ_gamma1_2loop", a, k, q2, q1), rtol=1e-9, atol=1e-12)
    D.ensure("kernel", D.call("integ_gamma1_2loop", a, k, q1, q2), kernel(a, q1 / k, q2 / k), rtol=1e-7, atol=scale(a, q1 / k, q2 / k) * R("3e-6"))

def pick2(R_):
    u = R_.rng.random()
    q = R_.env["q1"]
    if u < 0.3: return q * math.exp(R_.rng.uniform(-0.045, 0.045))
    if u < 0.7: return q * math.exp(R_.rng.choice([-1, 1]) * R_.rng.uniform(3, 9))
    return q * math.exp(R_.rng.uniform(-4, 4))
def beta(D, a):
    q1 = D.real("q1", lo=1e-3, hi=10.)
    q2 = D.real("q2", lo=1e-3, hi=10., pick=pick2)
    r = D.call("beta", a, q1, q2)
    D.ensure("beta", r, beta_pw(a, q1, q2), true=lambda: beta_true(a, q1, q2), rtol=3e-6)

def expansions(ctx):
    """the pieces of the specification agree with the closed form"""
    out = []
    for a in (0, 1):
        p, q, s = polyN(a)
        P = lemmas.padd({2 * i: Fr(c) for i, c in enumerate(p)}, {})
        Q = {4 + 2 * i: Fr(120 * c) for i, c in enumerate(q)}
        pre = {0: Fr(2), 2: Fr(2)}
        P, Q = lemmas.pmul(pre, P), lemmas.pmul(pre, Q)
        sc = Fr(429975 if a == 0 else 4729725)
        Dn = lemmas.pscale(lemmas.ppow({2: Fr(1), 0: Fr(-1)}, 7), sc)
        S = {0: Fr(22382, 429975), 2: Fr(-57052, 429975)} if a == 0 else {0: Fr(9886, 429975), 2: Fr(-254356, 4729725)}
        lim = lemmas.series_at_zero_log(P, Q, Dn, S, Fr(1, 100))
        out.append(("beta(a=%d) near y=0: |error| <= %.2e for y<0.01" % (a, lim), "proved" if lim < 3e-7 else "violated", "exact rational bound", "bound %.3e" % lim))
        S = {0: Fr(120424, 3009825), 2: Fr(2792, 429975), 3: Fr(2792, 429975), 4: Fr(392606, 99324225)} if a == 0 else \
            {0: Fr(594232, 33108075), 2: Fr(91912, 33108075), 3: Fr(91912, 33108075), 4: Fr(1818458, 1092566475)}
        sub = lambda X: lemmas.pcompose(X, {0: Fr(1), 1: Fr(-1)})
        lim = lemmas.series_log1m(sub(P), sub(Q), sub(Dn), S, Fr(5, 100))
        out.append(("beta(a=%d) near y=1: |error| <= %.2e for 1-y<0.05" % (a, lim), "proved" if lim < 1e-8 else "violated", "exact rational bound", "bound %.3e" % lim))
    return out

PROP = dict(id="C07", items=[
    Contract(gamma1_2loop, [dict(a=0), dict(a=1), dict(a=1, itp="lin")]),
    Contract(calc_gamma1, [dict(a=0, b=0), dict(a=0, b=1), dict(a=1, b=0), dict(a=1, b=1)]),
    Contract(symmetric, [dict(a=0), dict(a=1)]),
    Contract(beta, [dict(a=0), dict(a=1)]),
    Lemma(expansions),
])
