"""C11: tree- and one-loop bispectra."""
from .base import *
from .c09 import tree, one
from . import c05
from .c05 import F2, dot, add
from .c10 import vecof, F3num
from prop import Contract, Lemma

def ordered(vs): return sorted(vs, key=lambda v: tm.numkey(list(v)))
def F3s(a, *vs):
    f = []
    for v in ordered(vs): f += list(v)
    return tm.fn("F3sym", I(a) if isinstance(a, int) else a, *f)
def F2s(a, *vs):
    f = []
    for v in ordered(vs): f += list(v)
    return tm.fn("F2sym", I(a) if isinstance(a, int) else a, *f)
def cut_F3(ex, st, a, node, fn):
    """contract of F3_sym (C05): a symmetric function of three modes"""
    if len(a) != 4: return NotImplemented
    return F3s(ex.as_int(a[0]), *[vecof(ex, st, x, node) for x in a[1:]])
def cut_F2(ex, st, a, node, fn):
    """contract of F2_sym_full (C05): a symmetric function of two modes"""
    if len(a) != 3: return NotImplemented
    return F2s(ex.as_int(a[0]), *[vecof(ex, st, x, node) for x in a[1:]])
def F2num(a, *v):
    v = [float(x) for x in v]
    p, q = v[:3], v[3:]
    d = lambda x, y: sum(i * j for i, j in zip(x, y))
    return float(tm.evaluate(F2(int(a), R(d(p, p)), R(d(q, q)), R(d(p, q))), {}))
CUTS = dict(BASE, F2_sym_full=cut_F2, F3_sym=cut_F3, gamma1_1loop=opaque("gamma1_1loop", 2))

MIN1, MIN3 = R("1e-2"), R("3e-2")
def mx3(a, b, c):
    m = tm.ite(tm.lt(b, a), a, b)
    return tm.ite(tm.lt(c, m), m, c)
# (name, labels of p, kp, k)
OUT = [("b211A", (1, 0, 0)), ("b221A", (1, 1, 0)), ("b212A", (1, 0, 1)), ("b222A", (1, 1, 1)),
       ("b211tA", (0, 1, 0)), ("b221tA", (1, 1, 0)), ("b212tA", (0, 1, 1)), ("b222tA", (1, 1, 1))]

def regularised(D, which, interpol=None):
    """resummed bispectra of one triangle"""
    tab = Tab(D)
    if D.real_mode:
        import ctypes
        def g1(a, k):
            f = D.lib.gamma1_1loop; f.restype = ctypes.c_double
            return f(ctypes.c_int(int(a)), ctypes.c_double(float(k)))
        D.env["fn:gamma1_1loop"] = g1
    def pk(R_):
        u = R_.rng.random()
        return math.exp(R_.rng.uniform(math.log(3e-3), math.log(0.05 if u < 0.5 else 0.6)))
    k = D.real("k", lo=3e-3, hi=2., pick=pk)
    p = D.real("p", lo=3e-3, hi=2., pick=pk)
    kp = D.real("kp", lo=3e-3, hi=2., pick=lambda R_: (lambda a, b: R_.rng.uniform(abs(a - b) + 1e-3, a + b))(R_.env["k"], R_.env["p"]))
    uv = D.real("uv", lo=0.05, hi=2.)
    if D.real_mode:
        D.call("set_precision_gamma1_1loop_q", 6, 1e-3, 5., "poly")
        for f in "dt": D.call("set_precision_gamma2%s_1loop_q" % f, 5, 1e-3, 5., "poly")
    tab.set()
    itp = 1
    if interpol is not None:
        D.call("set_precision_bispectrum_1loop_pk_lin", interpol); itp = INTERP[interpol]
    else: D.call("set_precision_bispectrum_1loop_pk_lin", "poly")
    D.call("set_running_uvcutoff_bispectrum_1loop", uv)
    o = [D.array("o%d" % i, 1) for i in range(8)]
    if D.real_mode: D.call("init_bispectrum_1loop_I")
    D.call("bispectrum_1loop_I", k, p, kp, *o)
    K = {"k": k, "p": p, "kp": kp}
    s2 = {n: tab.sig(v, uv) for n, v in K.items()}
    low = tm.le(MIN1, k)
    g1on = {"k": low, "p": tm.and_(tm.le(MIN1, p), low), "kp": tm.and_(tm.le(MIN3, kp), low)}
    g2on = tm.and_(tm.le(MIN1, mx3(kp, k, p)), low)
    def G1(n, a): return tm.ite(g1on[n], 1 + K[n] * K[n] * s2[n] / 2 + tm.fn("gamma1_1loop", I(a), K[n]), R(1))
    def G2(n, a):
        # the mode n is coupled to the two others
        x, y = {"p": ("kp", "k"), "kp": ("p", "k"), "k": ("p", "kp")}[n]
        t = tree(a, K[x], K[y], K[n])
        return tm.ite(g2on, t * (1 + K[n] * K[n] * s2[n] / 2) + one(a, K[x], K[y], K[n]), t)
    P = {n: tab.P(v, itp) for n, v in K.items()}
    expo = sum((K[n] * K[n] * s2[n] for n in ("p", "kp")), K["k"] * K["k"] * s2["k"]) / 2
    for i in which:
        nm, lab = OUT[i]
        L = dict(zip(("p", "kp", "k"), lab))
        v = R(0)
        for n in L:
            x, y = [m for m in L if m != n]
            v = v + G2(n, L[n]) * G1(x, L[x]) * G1(y, L[y]) * P[x] * P[y]
        D.ensure(nm, D.out(o[i], 0), tm.ite(tm.lt(R(100), expo), R(0), 2 * v * tm.exp(-expo)), rtol=1e-6)
    if D.real_mode: D.call("free_bispectrum_1loop_I")

def triangle(D, sampled=True):
    h, v = [], []
    for n in ("x", "y"):
        a = D.array(n, 3, lambda R_, N: [R_.rng.uniform(-0.6, 0.6) for _ in range(3)])
        h.append(a); v.append([a[i] for i in range(3)])
    v.append([-(v[0][i] + v[1][i]) for i in range(3)])
    h.append(D.built("z", v[2]))
    return h, v
def nrm(v): return tm.sqrt(dot(v, v))
def sub(a, b): return [x - y for x, y in zip(a, b)]
def neg(a): return [-x for x in a]

def loops(D, interpol="poly", swap=None, what=(0, 1)):
    """integrands of the (222) and (321) diagrams of a closed triangle, for any field labels"""
    tab = Tab(D)
    a, b, c = [D.integer("lab" + n, lo=0, hi=1) for n in "abc"]
    for t in (a, b, c): D.require(tm.le(t, I(1)))
    if D.real_mode: D.env["fn:F3sym"], D.env["fn:F2sym"] = F3num, F2num
    h, x = triangle(D)
    hq = D.array("q", 3, lambda R_, N: [R_.rng.uniform(-0.25, 0.25) for _ in range(3)])
    q = [hq[i] for i in range(3)]
    tab.set()
    D.call("set_precision_bispectrum_1loop_pk_lin", interpol)
    o = [D.array("o%d" % i, 1) for i in range(2)]
    lab = (a, b, c)
    perm = swap or (0, 1, 2)
    D.call("bispectrum_1loop_II_III", h[perm[0]], h[perm[1]], h[perm[2]], hq, lab[perm[0]], lab[perm[1]], lab[perm[2]], *o)
    P = lambda y: tab.P(y, INTERP[interpol])
    Q = nrm(q)
    # mode of leg i minus s q, for either sign of q: the pair (k_i - s q, s q)
    def left(i, s): return sub(x[i], q) if s > 0 else add(x[i], q)
    def loop(s): return q if s > 0 else neg(q)
    v222 = R(0)
    for i in range(3):
        for j in range(3):
            if i == j: continue
            l = 3 - i - j
            u, w = left(i, 1), left(j, -1)
            v222 = v222 + tm.ite(tm.and_(tm.lt(Q, nrm(u)), tm.lt(Q, nrm(w))), F2s(lab[i], u, q) * F2s(lab[j], w, neg(q)) * F2s(lab[l], w, u) * P(nrm(u)) * P(Q) * P(nrm(w)), R(0))
    v321 = R(0)
    for i in range(3):            # leg with the second-order kernel
        for s in (1, -1):
            u = left(i, s)
            t = R(0)
            for l in range(3):    # leg at linear order
                if l == i: continue
                m = 3 - i - l     # leg with the third-order kernel
                t = t + F3s(lab[m], x[l], u, loop(s)) * P(nrm(x[l]))
            v321 = v321 + tm.ite(tm.lt(Q, nrm(u)), t * F2s(lab[i], u, loop(s)) * P(nrm(u)) * P(Q), R(0))
    n = tm.pw(2 * tm.PI, 3)
    if 0 in what: D.ensure("222", D.out(o[0], 0), 4 * v222 / n, rtol=1e-6, atol=1e-9)
    if 1 in what: D.ensure("321", D.out(o[1], 0), 6 * v321 / n, rtol=1e-6, atol=1e-9)

PROP = dict(id="C11", items=[
    Contract(regularised, [dict(which=(i,)) for i in range(8)] + [dict(which=(0,), interpol="lin")], cuts=CUTS, n=(40, 300)),
    Contract(loops, [dict(what=(w,)) for w in (0, 1)] + [dict(swap=(2, 0, 1), interpol="lin", what=(w,)) for w in (0, 1)], cuts=CUTS, n=(60, 300))],
    trusted=["contracts of F2_sym_full and F3_sym (symmetric functions of their modes) are established by C05"])
