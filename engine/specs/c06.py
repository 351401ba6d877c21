"""C06, C07: one-point propagators."""
from .base import *
import random

def F_closed(x):
    """Taruya et al. 2012, one-loop density kernel (times x)"""
    x2 = x * x
    return (6 / x2 - 79 + 50 * x2 - 21 * x2 * x2 + R(0.75) * tm.pw(1 / x - x, 3) * (2 + 7 * x2) * 2 * tm.log(tm.absr((x - 1) / (1 + x)))) / 504 * x
def G_closed(x):
    x2 = x * x
    return (6 / x2 - 41 + 2 * x2 - 3 * x2 * x2 + R(0.75) * tm.pw(1 / x - x, 3) * (2 + x2) * 2 * tm.log(tm.absr((x - 1) / (1 + x)))) / 168 * x
def q_(a, b): return tm.div(R(a), R(b))
def F_one(x): d = x - 1; return (-q_(11, 126) + d / 126 - q_(29, 252) * d * d) * x
def F_inf(x): return (-q_(61, 630) + q_(2, 105) / (x * x) - q_(10, 1323) / tm.pw(x, 4)) * x
def G_one(x): d = x - 1; return (-q_(3, 14) - q_(5, 42) * d + d * d / 84) * x
def G_inf(x): return (-q_(3, 10) + q_(26, 245) / (x * x) - q_(38, 2205) / tm.pw(x, 4)) * x
def piece(one, inf, closed):
    return lambda x: tm.ite(tm.lt(tm.absr(x - 1), R("0.01")), one(x), tm.ite(tm.lt(R(10), x), inf(x), closed(x)))
KER = {0: (piece(F_one, F_inf, F_closed), F_closed), 1: (piece(G_one, G_inf, G_closed), G_closed)}

def pick_x(R_):
    u = R_.rng.random()
    if u < 0.25: x = 1 + R_.rng.uniform(-0.0099, 0.0099)
    elif u < 0.35: x = 1 + R_.rng.uniform(-0.04, 0.04)
    elif u < 0.55: x = math.exp(R_.rng.uniform(math.log(5), math.log(15)))
    elif u < 0.65: x = math.exp(R_.rng.uniform(math.log(10), math.log(300)))
    else: x = math.exp(R_.rng.uniform(math.log(0.02), math.log(10)))
    return x
def near_k(R_): return R_.env["k"] * pick_x(R_)

def gamma1_1loop(D, a, itp="poly"):
    tab = Tab(D)
    k = D.real("k", lo=0.01, hi=1.)
    tab.set()
    if D.real_mode: D.sample_only(narrow)
    Q = qsetting(D, "set_precision_gamma1_1loop_q", itp=itp, near=near_k)
    D.call("init_gamma1_1loop")
    r = D.call("gamma1_1loop", a, k)
    D.call("free_gamma1_1loop")
    ker, true = KER[a]
    def total(K):
        s = tm.asum(0, Q.n, lambda i: K(Q.q(i) / k) * tab.P(Q.q(i), INTERP[itp]) * Q.w(i))
        return s * k * k * k / (2 * tm.PI * tm.PI)
    D.ensure("gamma1_1loop", r, total(ker), true=lambda: total(true), rtol=1e-4)
    D.freed()
def narrow(R_):
    if R_.rng.random() < 0.7:
        R_.env["nq"] = 1
        k = R_.env["k"]
        q = k * pick_x(R_)
        f = math.exp(R_.rng.uniform(1e-6, 1e-3))
        R_.env["qmin"], R_.env["qmax"] = q / f, q * f

from prop import Contract
PROP = dict(id="C06", items=[Contract(gamma1_1loop, [dict(a=0), dict(a=1), dict(a=0, itp="lin"), dict(a=1, itp="lin")])])
