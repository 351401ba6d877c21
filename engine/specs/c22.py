"""C22: the interpolated redshift-space corrections."""
from .base import *
from pysym import guarded
from prop import Contract
import bisect
from .c19 import make, ordered, NC

# powers of the squared cosine and of the growth-rate ratio multiplying each stored coefficient
A = [(1, 1), (1, 2), (2, 2), (2, 3), (3, 3)]
B = [(1, 2), (1, 3), (1, 4), (2, 2), (2, 3), (2, 4), (3, 3), (3, 4), (4, 4)]
POW = dict(A1Loop=A, A2Loop=A, B1Loop=B, B2Loop=B)

def line(D, W, x, gk, gf, n, l, r):
    """the straight line across the interval of the abscissae that holds x, or the value chosen for that side"""
    if not D.real_mode: return W.interp_spec(x, gk, gf, n, l, r)
    N, X = int(D.v(n)), D.v(x)
    ks = [D.v(gk(I(i))) for i in range(N)]
    if X < ks[0]: return R(l)
    if X > ks[-1]: return R(r)
    j = min(max(bisect.bisect_right(ks, X) - 1, 0), N - 2)
    return gf(I(j)) + (x - gk(I(j))) * (gf(I(j + 1)) - gf(I(j))) / (gk(I(j + 1)) - gk(I(j)))

def gx(name, i): return tm.sel(tm.avar(name), tm.lift(i, "I"))

def spec(D, W, cls, n, x, mu2, beta, G, l, r):
    s = tm.ZERO
    for c, (a, b) in enumerate(POW[cls]):
        f = lambda j, c=c: tm.sel(tm.avar("pk"), tm.lift(j, "I") * NC[cls] + c) * tm.pw(G, 4)
        s = s + tm.pw(mu2, a) * tm.pw(beta, b) * line(D, W, x, lambda j: gx("k", j), f, n, l, r)
    return s

def anywhere(D, N):
    k = D.env["k"]
    return [D.rng.choice([D.rng.uniform(0.3, 1.5) * D.rng.choice(k), D.rng.choice(k)]) for _ in range(N)]

@guarded
def correction(D, W, cls, form="scalars", fill=0, growth=1):
    n = D.integer("nk", lo=2, hi=5)
    o = make(W, D, cls, n, k=ordered)
    beta = D.real("beta", lo=0.1, hi=1.5)
    G = D.real("growth", lo=0.2, hi=2.)
    kw, l, r = {}, R(0), R(0)
    if fill:
        l, r = D.real("left", lo=-3, hi=3), D.real("right", lo=-3, hi=3)
        if fill in (1, 3): kw["left"] = W.scalar(l)
        else: l = R(0)
        if fill in (2, 3): kw["right"] = W.scalar(r)
        else: r = R(0)
    g = G
    if growth: kw["Dgrowth"] = W.scalar(G)
    else: g = R(1)
    m = D.integer("nx", lo=1, hi=4) if form in ("arrays", "k array") else I(1)
    if form == "scalars":
        x = D.real("x", pick=lambda D: anywhere(D, 1)[0])
        mu2 = D.real("mu2", pick=lambda D: D.rng.choice([0., 1., D.rng.uniform(0, 1)]))
        v = o.pk_interp(W.scalar(x), W.scalar(mu2), beta=W.scalar(beta), **kw)
        W.ensure_shape("shape", v, ())
        D.ensure("correction", W.val(v), spec(D, W, cls, n, x, mu2, beta, g, l, r), atol=1e-9)
        # default ratio
        v = o.pk_interp(W.scalar(x), W.scalar(mu2), **kw)
        D.ensure("correction at unit ratio", W.val(v), spec(D, W, cls, n, x, mu2, R(1), g, l, r), atol=1e-9)
    elif form == "k array":
        xs = W.array("x", m, lambda R_, N: anywhere(R_, N))
        mu2 = D.real("mu2", pick=lambda D: D.rng.uniform(0, 1))
        v = o.pk_interp(xs, W.scalar(mu2), beta=W.scalar(beta), **kw)
        W.ensure_shape("shape", v, (m,))
        D.ensure_all("correction", m, lambda i: (W.val(v, i), spec(D, W, cls, n, gx("x", i), mu2, beta, g, l, r)), atol=1e-9)
    elif form == "arrays":
        xs = W.array("x", m, lambda R_, N: anywhere(R_, N))
        ms = W.array("mu2s", m, lambda R_, N: [R_.rng.uniform(0, 1) for _ in range(N)])
        v = o.pk_interp(xs, ms, beta=W.scalar(beta), **kw)
        W.ensure_shape("shape", v, (m,))
        D.ensure_all("correction", m, lambda i: (W.val(v, i), spec(D, W, cls, n, gx("x", i), gx("mu2s", i), beta, g, l, r)), atol=1e-9)
        D.ensure_all("wavenumbers unchanged", m, lambda i: (W.val(xs, i), gx("x", i)))
        D.ensure_all("cosines unchanged", m, lambda i: (W.val(ms, i), gx("mu2s", i)))
    for f in ("k", "pk_lin", "sigmad2"): D.ensure_all("terms unchanged: " + f, n, lambda i: (W.val(o[f], i), gx(f, i)))
    for c in range(NC[cls]): D.ensure_all("terms unchanged: pk[%d]" % c, n, lambda i: (W.val(o["pk"], i, c), tm.sel(tm.avar("pk"), tm.lift(i, "I") * NC[cls] + c)))

@guarded
def spectrum(D, W, cls, fill=0):
    """spectra interpolated at other wavenumbers"""
    n = D.integer("nk", lo=2, hi=5)
    o = make(W, D, cls, n, k=ordered)
    G = D.real("growth", lo=0.2, hi=2.)
    x = D.real("x", pick=lambda D: anywhere(D, 1)[0])
    kw, l, r = {}, R(0), R(0)
    if fill:
        l, r = D.real("left", lo=-3, hi=3), D.real("right", lo=-3, hi=3)
        kw = dict(left=W.scalar(l), right=W.scalar(r))
    v = o.pk_interp(W.scalar(x), Dgrowth=W.scalar(G), **kw)
    pk = o.pk(W.scalar(G))
    D.ensure("interpolated spectrum", W.val(v), line(D, W, x, lambda j: gx("k", j), lambda j: W.val(pk, j), n, l, r), atol=1e-9)

CL = ("A1Loop", "A2Loop", "B1Loop", "B2Loop")
PROP = dict(id="C22", items=[
    Contract(correction, [dict(cls=c, form=f, fill=3) for c in CL for f in ("scalars", "k array", "arrays")] +
             [dict(cls=c, fill=f, growth=g) for c in ("A1Loop", "B1Loop") for f, g in ((0, 0), (1, 1), (2, 1))], n=(60, 400)),
    Contract(spectrum, [dict(cls=c, fill=f) for c in ("SpectrumLin", "Spectrum1Loop", "Spectrum2Loop") for f in (0, 1)])])
