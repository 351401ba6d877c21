"""C08: the kernel of the one-loop two-point propagator."""
from .base import *
import json, os, random
from fractions import Fraction as Fr
import algebra
from prop import Contract, Lemma, MEM

# ------------------------------------------------------------------ the function all the expressions stand for
_C = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "gamma2_closed.json")))
def poly(rows, *x):
    return tm.add(*[tm.num(Fr(r[0])) * tm.mul(*[tm.pw(v, e) for v, e in zip(x, r[1:]) if e]) for r in rows])
def L_(k, q): return 2 * tm.log(tm.absr((k + q) / (k - q)))
def disc(k1, k2, k3, q): return k1 * k1 * k2 * k2 - (k1 * k1 + k2 * k2 - k3 * k3) * q * q + tm.pw(q, 4)
def W_(k1, k2, k3, q):
    A = -4 * k3 * k3 * q * q - 2 * (k1 * k1 - q * q) * (k2 * k2 - q * q)
    B = 4 * k3 * q * tm.sqrt(disc(k1, k2, k3, q))
    return tm.log((A - B) / (A + B))
def closed(a, k1, k2, k3, q):
    """24 pi times the average over the direction of q of the symmetrised fourth-order kernel F4 (G4) of (k1, k2, q, -q)"""
    C = _C["dt"[a]]
    x = (k1, k2, k3, q)
    s = poly(C["P"], *x) + poly(C["L1"], *x) * L_(k1, q) + poly(C["L2"], *x) * L_(k2, q) + poly(C["L3"], *x) * L_(k3, q)
    u1, u2, u3, q2 = k1 * k1 - q * q, k2 * k2 - q * q, k3 * k3 - q * q, q * q
    c12 = 3 * tm.pw(k3, 3) * u1 * u1 * u2 * u2 / ((4312 if a == 0 else 1078) * k1 * k1 * k2 * k2 * tm.pw(q, 5))
    v = u3 * ((2 * k3 * k3 + 9 * q2) if a == 0 else (8 * k3 * k3 + 3 * q2))
    c13 = k2 * u1 * u1 * v / (7392 * k1 * k1 * tm.pw(q, 5))
    c23 = k1 * u2 * u2 * v / (7392 * k2 * k2 * tm.pw(q, 5))
    s = s + c12 * W_(k1, k2, k3, q) / tm.sqrt(disc(k1, k2, k3, q)) + c13 * W_(k1, k3, k2, q) / tm.sqrt(disc(k1, k3, k2, q)) \
        + c23 * W_(k2, k3, k1, q) / tm.sqrt(disc(k2, k3, k1, q))
    return tm.PI * s
def beta_(a, z): return -tm.add(*[tm.pw(z, n) / n for n in range(1, a)]) - tm.log(1 - z)
def SB(k, q):
    y = (k - q) / (k + q)
    return y * beta_(4, 1 - y * y)
def BB(k1, k2, k3, q):
    x = (k1 * k1 - q * q) * (k2 * k2 - q * q)
    a = k3 * q
    y = tm.sqrt(x + a * a) / a
    return x * beta_(2, 1 - tm.pw((1 - y) / (1 + y), 2)) / (a * y)

def sides(R_, lo=0.1, hi=1., sharp=0.02):
    """lengths of a triangle, not too flat"""
    r = R_.rng
    while True:
        k1, k2 = math.exp(r.uniform(math.log(lo), math.log(hi))), math.exp(r.uniform(math.log(lo), math.log(hi)))
        c = r.uniform(-1 + sharp, 1 - sharp)
        k3 = math.sqrt(k1 * k1 + k2 * k2 + 2 * k1 * k2 * c)
        if lo / 3 < k3 < 2 * hi: break
    R_.env["k1"], R_.env["k2"], R_.env["k3"] = k1, k2, k3
def lengths(D, sample, **kw):
    """k1, k2, k3 sides of a triangle and q, all positive"""
    if D.real_mode: D.sample_only(sample)
    ks = [D.real(n, lo=1e-9, hi=1e9) for n in ("k1", "k2", "k3", "q")]
    if not D.real_mode:
        k1, k2, k3, q = ks
        for a, b, c in ((k1, k2, k3), (k1, k3, k2), (k2, k3, k1)): D.require(tm.lt(a, b + c))
    return ks

FIELD = "dt"
def s_exact(R_):
    sides(R_)
    R_.env["q"] = math.exp(R_.rng.uniform(math.log(0.1), math.log(2)))
def general(D, a):
    """the general closed form"""
    x = lengths(D, s_exact)
    D.expands("closed form", D.call("kernel_gamma2%s_exact" % FIELD[a], *x), closed(a, *x), rtol=1e-7, atol=1e-9)

def s_regular(R_):
    s_exact(R_)
    if R_.rng.random() < 0.5: R_.env["q"] = R_.env[R_.rng.choice(["k1", "k2", "k3"])] * (1 + R_.rng.choice([-1, 1]) * 10 ** R_.rng.uniform(-4, -1))
BETAS = dict(BASE)
BETAS["small_beta"] = lambda ex, st, a, node, fn: SB(*[ex.as_real(x) for x in a]) if len(a) == 2 else NotImplemented
BETAS["big_beta"] = lambda ex, st, a, node, fn: BB(*[ex.as_real(x) for x in a]) if len(a) == 4 else NotImplemented
def regular(D, a):
    """the form regular at coincident wavenumbers, its two special functions being what their contracts say"""
    x = lengths(D, s_regular)
    D.expands("closed form", D.call("kernel_gamma2%s_reg3rd" % FIELD[a], *x), closed(a, *x), rtol=1e-5, atol=1e-6)

# expansions: (point, powers before, order of the computation)
EXP = {"highk": (dict(q=(None, 1, 1)), 4, 10), "lowk": (dict(q=(None, -1, 1)), 6, 14), "coll": (dict(k3=("k2", 1, 1)), 6, 12),
       "elongate": (dict(k2=("k1", 1, 1)), 2, 14)}
def s_expansion(reg):
    def f(R_):
        r = R_.rng
        t = 10 ** r.uniform(-2.5, -1.2)
        if reg in ("highk", "lowk"):
            sides(R_, 0.2, 1.)
            k = [R_.env[n] for n in ("k1", "k2", "k3")]
            R_.env["q"] = t * min(k) if reg == "highk" else max(k) / t
        else:
            k, c = math.exp(r.uniform(-2, 0)), r.uniform(-0.95, 0.95)
            s = k * t
            big = math.sqrt(k * k + s * s + 2 * k * s * c)
            R_.env["k1"], R_.env["k2"], R_.env["k3"] = (k, s, big) if reg == "elongate" else (k, big, s)
            R_.env["q"] = k * math.exp(r.uniform(-0.5, 1.) if reg == "elongate" else r.uniform(0.2, 1.))
    return f
def expansion(D, a, reg, swap=False):
    """an expansion is the truncation of the closed form"""
    k1, k2, k3, q = lengths(D, s_expansion(reg))
    if reg == "elongate": D.require(tm.lt(k2, k1))
    x = (k2, k1, k3, q) if swap else (k1, k2, k3, q)
    p, upto, order = EXP[reg]
    D.expands("truncation", D.call("kernel_gamma2%s_%s" % (FIELD[a], reg), *x), closed(a, k1, k2, k3, q), p, upto, order, rtol=1e-7)

# ------------------------------------------------------------------ the special functions
def logarithm(D):
    k, q = D.real("k", lo=0.01, hi=10.), D.real("q", lo=0.01, hi=10.)
    if not D.real_mode: D.require(tm.not_(tm.eq(k, q)))
    D.ensure("LFunc", D.call("LFunc", k, q), L_(k, q), rtol=1e-8, atol=1e-12)
def logarithm3(D):
    x = lengths(D, s_exact)
    D.ensure("WFunc", D.call("WFunc", *x), W_(*x), rtol=1e-6, atol=1e-9)
def s_z(R_): R_.env["z"] = R_.rng.choice([R_.rng.uniform(0, 1), R_.rng.uniform(0.05, 0.15), 1 - 10 ** R_.rng.uniform(-8, -1)])
def beta_series(a, z): return tm.pw(z, a) * tm.add(*[tm.pw(z, n) / (a + n) for n in range(7)])
def betafunction(D, a):
    if D.real_mode: D.sample_only(s_z)
    z = D.real("z", lo=0., hi=1.)
    if not D.real_mode: D.require(tm.lt(z, R(1)))
    D.ensure("betafunc", D.call("betafunc", I(a), z), tm.ite(tm.le(z, R("0.1")), beta_series(a, z), beta_(a, z)), true=lambda: beta_(a, z), rtol=3e-7 if a < 6 else 3e-6)

def betaf(a, z): return tm.fn("beta", I(a), z)
CUTB = dict(BASE)
CUTB["betafunc"] = lambda ex, st, a, node, fn: betaf(ex.as_int(a[0]).a[0], ex.as_real(a[1])) if len(a) == 2 and ex.as_int(a[0]).op == "num" else NotImplemented
def beta_mp(a, z):
    import mpmath
    z = mpmath.mpf(z)
    return -sum(z ** n / n for n in range(1, int(a))) - mpmath.log(1 - z)
def s_beta(R_):
    s_regular(R_)
    if R_.rng.random() < 0.2: R_.env["q"] = R_.env["k1"] * (1 + R_.rng.choice([-1, 1]) * 10 ** R_.rng.uniform(-9, -4))
def smallbeta(D):
    if D.real_mode: D.sample_only(s_beta); D.env["fn:beta"] = beta_mp
    k, q = D.real("k1", lo=1e-3, hi=10.), D.real("q", lo=1e-3, hi=10.)
    y = (k - q) / (k + q)
    D.ensure("small_beta", D.call("small_beta", k, q), tm.ite(tm.le(tm.absr(y), R("0.000001")), R(0), y * betaf(4, 1 - y * y)), true=lambda: tm.ite(tm.eq(y, R(0)), R(0), SB(k, q)), rtol=1e-6, atol=3.5e-5)
def big_series(a, d): return 2 * a * d * (-1 + tm.log(R(4)) - 2 * tm.log(tm.absr(d))) + a * d * d * (3 - tm.log(R(4)) + 2 * tm.log(tm.absr(d)))
def bigbeta(D):
    if D.real_mode: D.sample_only(s_beta); D.env["fn:beta"] = beta_mp
    k1, k2, k3, q = X = lengths(D, s_beta)
    x = (k1 * k1 - q * q) * (k2 * k2 - q * q)
    a = k3 * q
    y = tm.sqrt(x + a * a) / a
    z = 1 - tm.pw((1 - y) / (1 + y), 2)
    d = tm.absr(y - 1)
    D.ensure("big_beta", D.call("big_beta", *X), tm.ite(tm.le(d, R("0.00001")), R(0), tm.ite(tm.le(d, R("0.01")), big_series(a, y - 1), x * betaf(2, z) / (a * y))),
             true=lambda: tm.ite(tm.eq(y, R(1)), R(0), BB(*X)), rtol=1e-4, atol=a * R("0.0006"))

def remainders(ctx):
    """what the special functions leave out"""
    out = []
    for a in (2, 4, 6):
        z = tm.var("z")
        r = algebra.decide(beta_series(a, z), beta_(a, z), (dict(z=(None, 1, 1)), a + 7, a + 9), [])
        out.append(("the series of beta(%d, z) through z^%d" % (a, a + 6), r[0], "exact algebra of expansions", r[1]))
        b = Fr(a) * Fr(1, 10) ** 7 / ((a + 7) * Fr(9, 10))
        out.append(("relative remainder of the series of beta(%d, z) up to z = 1/10 below 1e-7" % a, "proved" if b < Fr(1, 10 ** 7) else "violated", "exact arithmetic", "%.2e" % b))
    # |y| (11/6 + 2 |log|y||) with |log y| <= 13.82 at 1e-6
    b = Fr(1, 10 ** 6) * (Fr(11, 6) + 2 * Fr(1382, 100))
    out.append(("what small_beta leaves out within 1e-6 of coincidence is below 3.1e-5", "proved" if b < Fr(31, 10 ** 6) else "violated", "exact arithmetic", "%.2e" % b))
    # big_beta / a as a function of d = y - 1 and l = log|d|
    d, l = tm.var("d"), tm.var("l")
    full = d * (2 + d) / (1 + d) * (-1 + d * d / tm.pw(2 + d, 2) + 2 * tm.log(2 + d) - 2 * l)
    ser = 2 * d * (-1 + tm.log(R(4)) - 2 * l) + d * d * (3 - tm.log(R(4)) + 2 * l)
    r = algebra.decide(ser, full, (dict(d=(None, 1, 1)), 3, 6), [])
    out.append(("the expansion of big_beta through the second power", r[0], "exact algebra of expansions", r[1]))
    import lemmas
    u = Fr(1, 100)
    # x = -d/2: rational part and the logarithm of 1 + d/2; the parts with log 2 and log|d| leave 2 d^3/(1+d) (log 2 - l)
    D = lemmas.pmul({0: Fr(1), 1: Fr(-2)}, lemmas.ppow({0: Fr(2), 1: Fr(-2)}, 2))
    dd = {1: Fr(-2)}
    P = lemmas.pmul(lemmas.pmul(dd, {0: Fr(2), 1: Fr(-2)}), {0: Fr(-4), 1: Fr(8)})
    Q = lemmas.pscale(lemmas.pmul(dd, lemmas.ppow({0: Fr(2), 1: Fr(-2)}, 3)), Fr(2))
    S = {1: Fr(4), 2: Fr(12)}
    b = lemmas.series_log1m(P, Q, D, S, u / 2)
    c = 2 * 1e-6 / 0.99 * (0.7 + 11.52)
    out.append(("the expansion of big_beta/(k3 q) is within 4e-5 of it up to |y-1| = 1e-2", "proved" if b + c < 4e-5 else "violated", "exact arithmetic", "%.2e" % (b + c)))
    b = Fr(1, 10 ** 5) * 2 * (1 + 2 * Fr(1152, 100)) * 2
    out.append(("what big_beta leaves out within 1e-5 is below 1e-3 k3 q", "proved" if b < Fr(1, 1000) else "violated", "exact arithmetic", "%.2e" % b))
    return out

# ------------------------------------------------------------------ the choice of the regime
REG = ("exact", "reg3rd", "lowk", "highk", "elongate", "coll")
def choice(f, k1, k2, k3, q):
    mx = lambda a, b: tm.ite(tm.lt(b, a), a, b)
    mn = lambda a, b: tm.ite(tm.lt(a, b), a, b)
    lo, hi, l12, h12 = mn(mn(k1, k2), k3), mx(mx(k1, k2), k3), mn(k1, k2), mx(k1, k2)
    g = lambda c, x, y: tm.ite(c, x, y)
    near = tm.or_(*[tm.lt(tm.absr(k / q - 1), R("0.001")) for k in (k1, k2, k3)])
    high, low = tm.lt(q, R("0.1") * lo), tm.lt(10 * hi, q)
    elong = tm.and_(tm.lt(50 * l12, q), tm.lt(tm.absr(h12 * h12 - k3 * k3), q * q))
    coll = tm.and_(tm.lt(100 * k3, q), tm.lt(k3, 10 * l12))
    rest = g(high, f("highk"), g(low, f("lowk"), g(elong, f("elongate"), g(coll, f("coll"), f("exact")))))
    iso = g(low, f("lowk"), g(high, f("highk"), f("reg3rd")))
    return g(near, f("reg3rd"), g(tm.lt(tm.absr(k2 / k1 - 1), R("0.02")), iso, rest))
def s_choice(R_):
    sides(R_, 0.1, 1.)
    r = R_.rng
    if r.random() < 0.3:
        k2 = R_.env["k1"] * (1 + r.uniform(-0.02, 0.02)); c = r.uniform(-0.9, 0.9)
        R_.env["k2"], R_.env["k3"] = k2, math.sqrt(k2 * k2 + R_.env["k1"] ** 2 + 2 * k2 * R_.env["k1"] * c)
    R_.env["q"] = math.exp(r.uniform(math.log(0.01), math.log(20)))
REGCUT = dict(BASE)
for _a in FIELD:
    for _r in REG:
        REGCUT["kernel_gamma2%s_%s" % (_a, _r)] = (lambda nm: lambda ex, st, a, node, fn: tm.fn(nm, *[ex.as_real(x) for x in a]) if len(a) == 4 else NotImplemented)("G2%s_%s" % (_a, _r))
def selection(D, a):
    x = lengths(D, s_choice)
    if not D.real_mode:
        D.ensure("regime", D.call("kernel_gamma2" + FIELD[a], *x), choice(lambda r: tm.fn("G2%s_%s" % (FIELD[a], r), *x), *x))
    else:
        # the elongated expansion is used up to a ratio of 1/4, where its first neglected power counts
        r = REG[int(D.v(choice(lambda r: tm.num(REG.index(r), "I"), *x)))]
        D.ensure("one function", D.call("kernel_gamma2" + FIELD[a], *x), closed(a, *x), rtol=0.1 if r == "elongate" else 0.01, atol=5e-3 if r == "elongate" else 1e-6)

def applies(ctx):
    """a regime is chosen where its small quantity is small"""
    import solve
    x = k1, k2, k3, q = [tm.var(n) for n in ("k1", "k2", "k3", "q")]
    facts = [tm.lt(R(0), v) for v in x] + [tm.le(a, b + c) for a, b, c in ((k1, k2, k3), (k2, k1, k3), (k3, k1, k2))]
    ix = {r: tm.num(i, "I") for i, r in enumerate(REG)}
    ch = choice(lambda r: ix[r], *x)
    least = lambda c, s: tm.and_(*[tm.lt(s * v, c) for v in (k1, k2, k3)])
    goal = {"highk": tm.and_(*[tm.lt(10 * q, v) for v in (k1, k2, k3)]), "lowk": tm.and_(*[tm.lt(10 * v, q) for v in (k1, k2, k3)]),
            "elongate": tm.and_(tm.or_(tm.lt(4 * k1, k2), tm.lt(4 * k2, k1)), tm.lt(50 * tm.ite(tm.lt(k1, k2), k1, k2), q)),
            "coll": tm.and_(tm.lt(5 * k3, k1), tm.lt(5 * k3, k2), tm.lt(100 * k3, q)),
            # away from the poles of the closed form
            "exact": tm.and_(*[tm.le(R("0.001"), tm.absr(v / q - 1)) for v in (k1, k2, k3)])}
    out = []
    for r, g in goal.items():
        ok = solve.entails(facts + [tm.eq(ch, ix[r])], g, 20000)
        out.append(("%s is chosen where it applies" % r, "proved" if ok else "undecided", "z3", ""))
    # the same regimes whichever of the first two wavenumbers comes first, away from |k2/k1-1| = 0.02
    c2 = choice(lambda r: ix[r], k2, k1, k3, q)
    ok = solve.entails(facts + [tm.or_(tm.lt(tm.absr(k2 - k1), R("0.019") * k1), tm.lt(R("0.021") * k1, tm.absr(k2 - k1)))], tm.eq(ch, c2), 20000)
    out.append(("the same regime after exchange of k1 and k2", "proved" if ok else "undecided", "z3", ""))
    return out
def symmetric(ctx, a):
    k1, k2, k3, q = [tm.var(n) for n in ("k1", "k2", "k3", "q")]
    r = algebra.decide(closed(a, k1, k2, k3, q), closed(a, k2, k1, k3, q), ({}, 1, 1), [])
    return [("the closed form of the %s kernel does not depend on the order of k1 and k2" % ("density", "velocity")[a], r[0], "exact algebra of expansions", r[1])]

def kernels4(k1, k2, k3, q, n):
    """24 pi times the average over the direction of q of F4, G4 of (k1, k2, q, -q), from the recursion of Goroff et al."""
    import numpy as np, itertools
    dot = lambda a, b: (a * b).sum(-1)
    def FG(vs, memo):
        m = len(vs)
        if m == 1: return 1., 1.
        key = tuple(id(v) for v in vs)
        if key in memo: return memo[key]
        F = G = 0.
        for j in range(1, m):
            p1, p2 = sum(vs[:j]), sum(vs[j:])
            (_, Gm), (Fn, Gn) = FG(vs[:j], memo), FG(vs[j:], memo)
            d1, d2 = dot(p1, p1), dot(p2, p2)
            z = (d1 < 1e-18) | (d2 < 1e-18)           # a vanishing total momentum does not couple
            d1, d2, kk = np.where(z, 1, d1), np.where(z, 1, d2), p1 + p2
            al, be = np.where(z, 0, dot(kk, p1) / d1), np.where(z, 0, dot(kk, kk) * dot(p1, p2) / (2 * d1 * d2))
            F, G = F + Gm * ((2 * m + 1) * al * Fn + 2 * be * Gn), G + Gm * (3 * al * Fn + 2 * m * be * Gn)
        memo[key] = F / ((2 * m + 3) * (m - 1)), G / ((2 * m + 3) * (m - 1))
        return memo[key]
    mu = (k3 ** 2 - k1 ** 2 - k2 ** 2) / (2 * k1 * k2)
    x, w = np.polynomial.legendre.leggauss(n)
    ph = 2 * np.pi * (np.arange(n) + .5) / n
    X, P = np.meshgrid(x, ph, indexing="ij")
    s = np.sqrt(1 - X * X)
    Q = q * np.stack([s * np.cos(P), s * np.sin(P), X], -1)
    o = np.ones_like(X)[..., None]
    vs = [o * np.array([0, 0, k1]), o * np.array([k2 * math.sqrt(1 - mu * mu), 0, k2 * mu]), Q, -Q]
    memo, F, G = {}, 0, 0
    for p in itertools.permutations(vs):
        f, g = FG(list(p), memo)
        F, G = F + f / 24, G + g / 24
    W = w[:, None] / (2 * n) * np.ones_like(X)
    return 24 * math.pi * float((F * W).sum()), 24 * math.pi * float((G * W).sum())
def perturbation(ctx):
    """the closed forms are the angular averages they are meant to be (at sampled triangles)"""
    import mpmath
    mpmath.mp.dps = 40
    rng = random.Random(ctx.seed)
    out = []
    for i in range(6 if ctx.quick else 40):
        k1, k2 = rng.uniform(0.4, 1), rng.uniform(0.4, 1)
        k3 = math.sqrt(k1 * k1 + k2 * k2 + 2 * k1 * k2 * rng.uniform(-0.5, 0.9))
        q = rng.choice([rng.uniform(0.05, 0.2), rng.uniform(2.5, 8)])
        ref = kernels4(k1, k2, k3, q, 96)
        for a in (0, 1):
            x = [mpmath.mpf(v) for v in (k1, k2, k3, q)]
            env = dict(zip(("k1", "k2", "k3", "q"), x))
            v = float(tm.evaluate(closed(a, *[tm.var(n) for n in ("k1", "k2", "k3", "q")]), env, mpmath.mp))
            ok = abs(v - ref[a]) <= 1e-9 * max(1, abs(ref[a]))
            out.append(("the closed form is the average of %s4 (triangle %d)" % ("FG"[a], i), "bounded" if ok else "violated", "angular quadrature", "%.15g %.15g" % (v, ref[a]), None if ok else dict(k1=k1, k2=k2, k3=k3, q=q, closed=v, average=ref[a])))
    return out

# ------------------------------------------------------------------ the one-loop correction
KCUT = dict(BASE)
for _a in FIELD:
    KCUT.pop("gamma2%s_1loop" % _a)
    KCUT["kernel_gamma2" + _a] = (lambda nm: lambda ex, st, a, node, fn: tm.fn(nm, *[ex.as_real(x) for x in a]) if len(a) == 4 else NotImplemented)("KG2" + _a)
def integral(D, a, itp="poly"):
    f = FIELD[a]
    tab = Tab(D)
    if D.real_mode: D.sample_only(s_exact)
    ks = [D.real(n, lo=1e-2, hi=1e3) for n in ("k1", "k2", "k3")]
    tab.set()
    Q = qsetting(D, "set_precision_gamma2%s_1loop_q" % f, itp=itp)
    if D.real_mode:
        import ctypes
        g = getattr(D.lib, "kernel_gamma2" + f)
        g.restype = ctypes.c_double
        D.env["fn:KG2" + f] = lambda *x: g(*[ctypes.c_double(float(v)) for v in x])
    D.call("init_gamma2%s_1loop" % f)
    r = D.call("gamma2%s_1loop" % f, *ks)
    D.call("free_gamma2%s_1loop" % f)
    s = tm.asum(0, Q.n, lambda i: tm.fn("KG2" + f, *ks, Q.q(i)) * tm.pw(Q.q(i), 3) * tab.P(Q.q(i), INTERP[itp]) * Q.w(i))
    D.ensure("one-loop correction", r, s / (8 * tm.pw(tm.PI, 3)), rtol=1e-7)
    D.freed()

PROP = dict(id="C08", items=[
    Contract(general, [dict(a=0), dict(a=1)], n=(10, 100)),
    Contract(regular, [dict(a=0), dict(a=1)], cuts=BETAS, n=(10, 100)),
    Contract(expansion, [dict(a=a, reg=r) for a in (0, 1) for r in EXP] + [dict(a=a, reg="elongate", swap=True) for a in (0, 1)], n=(4, 40)),
    Contract(logarithm, n=(30, 200)), Contract(logarithm3, n=(30, 200)), Contract(betafunction, [dict(a=2), dict(a=4), dict(a=6)]),
    Contract(smallbeta, cuts=CUTB), Contract(bigbeta, cuts=CUTB), Contract(selection, [dict(a=0), dict(a=1)], cuts=REGCUT),
    Contract(integral, [dict(a=a, itp=i) for a in (0, 1) for i in ("poly", "lin")], cuts=KCUT),
    Lemma(remainders), Lemma(applies), Lemma(symmetric, (0,), name="symmetric(d)"), Lemma(symmetric, (1,), name="symmetric(t)"), Lemma(perturbation)])
