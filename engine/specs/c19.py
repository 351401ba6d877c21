"""C19: evaluating at a growth factor is rescaling the terms by it."""
from .base import *
from pysym import guarded
from prop import Contract, Lemma
from .c18 import columns, GENS, col
import solve

BIAS = ["pk_b2d", "pk_bs2d", "pk_b2t", "pk_bs2t", "pk_b22", "pk_b2s2", "pk_bs22"]
# every stored term with its order in the linear spectrum
ORDER = {"SpectrumLin": dict(k=0, pk=1), "SpectrumNoWiggle": dict(k=0, pk=1),
         "Spectrum1Loop": dict(k=0, pk_lin=1, sigmad2=1, gamma1a_1loop=1, gamma1b_1loop=1, pk_gamma2_tree_tree=2),
         "Spectrum2Loop": dict(k=0, pk_lin=1, sigmad2=1, gamma1a_1loop=1, gamma1a_2loop=2, gamma1b_1loop=1, gamma1b_2loop=2, pk_gamma2_tree_tree=2,
                               pk_gamma2_tree_1loop=3, pk_gamma2_1loop_1loop=4, pk_gamma3_tree=3),
         "Bias1Loop": dict([("k", 0), ("pk_lin", 1), ("sigmad2", 1), ("sigma3sq", 1)] + [(b, 2) for b in BIAS]),
         "A1Loop": dict(k=0, pk_lin=1, sigmad2=1, pk=2), "A2Loop": dict(k=0, pk_lin=1, sigmad2=1, pk=2),
         "B1Loop": dict(k=0, pk_lin=1, sigmad2=1, pk=2), "B2Loop": dict(k=0, pk_lin=1, sigmad2=1, pk=2)}
EVAL = {"SpectrumLin": ["pk"], "SpectrumNoWiggle": ["pk"], "Spectrum1Loop": ["pk", "pk_lin"], "Spectrum2Loop": ["pk", "pk_lin"],
        "Bias1Loop": ["pk_lin"] + BIAS + ["pk_sigma3sq", "pk_b22_damp", "pk_b2s2_damp", "pk_bs22_damp"],
        "A1Loop": ["pk", "pk_lin"], "A2Loop": ["pk", "pk_lin"], "B1Loop": ["pk", "pk_lin"], "B2Loop": ["pk", "pk_lin"]}
NC = {"A1Loop": 5, "A2Loop": 5, "B1Loop": 9, "B2Loop": 9}

def ordered(R_, N): return sorted(R_.rng.uniform(0.01, 1.) * (i + 1) for i in range(N))
def positive(R_, N): return [R_.rng.uniform(0.5, 5.) for _ in range(N)]
def make(W, D, cls, n, **gens):
    o = getattr(W, cls)()
    for f in o.FIELDS:
        if f == "pk" and cls in NC:
            a = W.array(f, n * NC[cls], lambda R_, N: [R_.rng.uniform(-2, 5) for _ in range(N)])
            o[f] = a.reshape((W.scalar(n), NC[cls]))
        else: o[f] = W.array(f, n, gens[f] if f in gens else GENS.get(f, lambda R_, N: [R_.rng.uniform(-2, 5) for _ in range(N)]))
    return o

def each(D, W, label, cls, f, n, x, spec):
    """x[i] (or x[i,c]) = spec(i[, c])"""
    if f == "pk" and cls in NC:
        for c in range(NC[cls]): D.ensure_all("%s[%d]" % (label, c), n, lambda i: (W.val(x, i, c), spec(i, c)))
    else: D.ensure_all(label, n, lambda i: (W.val(x, i), spec(i)))
def orig(cls, f):
    if f == "pk" and cls in NC: return lambda i, c: tm.sel(tm.avar(f), tm.lift(i, "I") * NC[cls] + c)
    return lambda i: tm.sel(tm.avar(f), tm.lift(i, "I"))

@guarded
def rescale(D, W, cls):
    n = D.integer("nk", lo=1, hi=4)
    G, H = D.real("growth", lo=0.2, hi=2.), D.real("growth2", lo=0.2, hi=2.)
    o = make(W, D, cls, n)
    o.rescale(W.scalar(G))
    for f, k in ORDER[cls].items():
        s = orig(cls, f)
        each(D, W, "term " + f, cls, f, n, o[f], lambda *i: tm.pw(G, 2 * k) * s(*i))
    o.rescale(W.scalar(H))
    for f, k in ORDER[cls].items():
        s = orig(cls, f)
        each(D, W, "twice " + f, cls, f, n, o[f], lambda *i: tm.pw(G * H, 2 * k) * s(*i))
    for f in ORDER[cls]: W.ensure_shape("shape " + f, o[f], (n, NC[cls]) if (f == "pk" and cls in NC) else (n,))

@guarded
def evaluate(D, W, cls):
    n = D.integer("nk", lo=1, hi=4)
    G = D.real("growth", lo=0.2, hi=2.)
    o = make(W, D, cls, n)
    before = {m: getattr(o, m)(W.scalar(G)) for m in EVAL[cls]}
    kw = {}
    if cls in ("Spectrum1Loop", "Spectrum2Loop"):
        sg = W.array("othersigma", n, GENS["sigmad2"])
        kw = dict(before=o.pk(W.scalar(G), sigmad2=sg))
    if cls == "Bias1Loop":
        sg = W.array("othersigma", n, GENS["sigmad2"])
        kw = {m: getattr(o, m)(W.scalar(G), sigmad2=sg) for m in EVAL[cls] if m.endswith("damp")}
    for f in ORDER[cls]:
        s = orig(cls, f)
        each(D, W, "evaluating leaves " + f, cls, f, n, o[f], s)
    o.rescale(W.scalar(G))
    for m in EVAL[cls]:
        after = getattr(o, m)()
        f = "pk" if m == "pk" else m
        each(D, W, m, cls, f, n, before[m], lambda *i: W.val(after, *i))
    g = W.scalar(G)
    for m, b in kw.items():
        after = getattr(o, "pk" if m == "before" else m)(sigmad2=sg * g * g)
        each(D, W, m + " with a given dispersion", "", "", n, b, lambda *i: W.val(after, *i))

@guarded
def perk(D, W, cls):
    """a growth factor given for every wavenumber"""
    n = D.integer("nk", lo=1, hi=4)
    o = make(W, D, cls, n)
    G = W.array("growths", n, lambda R_, N: [R_.rng.uniform(0.2, 2) for _ in range(N)])
    g = lambda i: tm.sel(tm.avar("growths"), tm.lift(i, "I"))
    for m in EVAL[cls]:
        x = getattr(o, m)(G)
        o2 = make(W, D, cls, n)
        def spec(i, m=m): return None
        from . import c18
        if m == "pk_lin" or (m == "pk" and cls not in ("Spectrum1Loop", "Spectrum2Loop")): D.ensure_all(m, n, lambda i: (W.val(x, i), g(i) * g(i) * orig(cls, m)(i)))
        elif m == "pk":
            F, sp = c18.SPEC[1 if cls == "Spectrum1Loop" else 2]
            D.ensure_all(m, n, lambda i: (W.val(x, i), sp(orig(cls, "k")(i), {f: orig(cls, f)(i) for f in F}, g(i))))

@guarded
def corrections(D, W, cls):
    """the interpolated redshift-space corrections"""
    n = D.integer("nk", lo=2, hi=5)
    G = D.real("growth", lo=0.2, hi=2.)
    mu2, beta, x = D.real("mu2", lo=0, hi=1.), D.real("beta", lo=0.1, hi=1.5), D.real("x", lo=0.01, hi=2.)
    if not D.real_mode: pass
    o = make(W, D, cls, n, k=ordered)
    increasing(D, W)
    a = o.pk_interp(W.scalar(x), W.scalar(mu2), beta=W.scalar(beta), Dgrowth=W.scalar(G))
    o.rescale(W.scalar(G))
    b = o.pk_interp(W.scalar(x), W.scalar(mu2), beta=W.scalar(beta))
    D.ensure("correction", W.val(a), W.val(b), atol=1e-9)
def increasing(D, W):
    if D.real_mode:
        k = D.env["k"]
        if any(a >= b for a, b in zip(k, k[1:])):
            import driver
            raise driver.Reject()
@guarded
def spectra(D, W, cls):
    """spectra interpolated at other wavenumbers, and the amplitudes"""
    n = D.integer("nk", lo=2, hi=5)
    G, x, r = D.real("growth", lo=0.2, hi=2.), D.real("x", lo=0.01, hi=2.), D.real("r", lo=1., hi=10.)
    o = make(W, D, cls, n, k=ordered, pk=positive)
    increasing(D, W)
    g = W.scalar(G)
    a, v, s = o.pk_interp(W.scalar(x), Dgrowth=g), o.sigmav(Dgrowth=g), o.sigmar(W.scalar(r), Dgrowth=g)
    o.rescale(g)
    D.ensure("pk_interp", W.val(a), W.val(o.pk_interp(W.scalar(x))), atol=1e-9)
    D.ensure("sigmav", W.val(v), W.val(o.sigmav()))
    D.ensure("sigmar", W.val(s), W.val(o.sigmar(W.scalar(r))))

def orders(ctx):
    """the order of every stored term, read off the published integrals that C06-C15 prove the library to compute: multiplying
    the linear spectrum by c multiplies the term by c to its order"""
    from . import c06, c07, c09, c12, c13, c14, c15
    out = []
    c, k = tm.var("c"), tm.var("k")
    n, lo, hi, nm = tm.var("nq", "I"), tm.var("qmin"), tm.var("qmax"), tm.var("nmu", "I")
    Q, M = Quad(n, lo, hi), QuadMu(nm)
    class Sc(object):
        def __init__(s, f): s.f = f
        def P(s, x, i=1): 
            v = tm.fn("PKlin", R(x), I(i) if not isinstance(i, T) else i)
            return v * c if s.f else v
        def sig(s, x, u): 
            v = tm.fn("SIGlin", R(x), R(u))
            return v * c if s.f else v
    def pairsum(g):
        def e(i, x, q, kq, mu): return tm.pw(x, 3) * 2 * g(q, kq)
        return pairs_(k, Q, M, e)
    pairs_ = c09.pairs
    def terms(tab):
        one = lambda a: tm.asum(0, Q.n, lambda i: c06.KER[a][0](Q.q(i) / k) * tab.P(Q.q(i)) * Q.w(i)) * k * k * k / (2 * tm.PI * tm.PI)
        G2 = lambda f: pairs_(k, Q, M, lambda i, x, q, kq, mu: tm.pw(x, 3) * 2 * tab.P(q) * tab.P(kq) * f(kq, q))
        # the one-loop two-point propagator is one integral over the linear spectrum
        g2 = lambda p, q: tm.fn("G2kernel", p, q) * (c if tab.f else R(1))
        t = dict(pk_lin=tab.P(k), sigmad2=tab.sig(k, tm.var("uv")), gamma1_1loop=one(0), gamma1_2loop=c07.two(0, k, Q, tab, 1, c07.kernel) + one(0) * one(0) / 2,
                 pk_gamma2_tree_tree=G2(lambda p, q: c09.tree(0, p, q, k) * c09.tree(1, p, q, k)),
                 pk_gamma2_tree_1loop=G2(lambda p, q: c09.tree(0, p, q, k) * g2(p, q)), pk_gamma2_1loop_1loop=G2(lambda p, q: g2(p, q) * g2(p, q)))
        for nm_, a, ker, half in c15.COLS: t[nm_] = c15.value(k, Q, M, tab, a, ker, half, "poly", "lin")
        return t
    want = dict(ORDER["Spectrum2Loop"], gamma1_1loop=1, gamma1_2loop=2, **ORDER["Bias1Loop"])
    a, b = terms(Sc(0)), terms(Sc(1))
    for nm_ in a:
        try:
            solve.EqProver([tm.lt(R(0), c), tm.lt(R(0), k)], pos={c, k}, deadline=time.time() + 60).prove(b[nm_], tm.pw(c, want[nm_]) * a[nm_])
            st = "proved"
        except Exception as e: st = "undecided"
        out.append(("%s has order %d" % (nm_, want[nm_]), st, "normal form + z3", ""))
    return out
import time

ALL = list(ORDER)
PROP = dict(id="C19", items=[
    Contract(rescale, [dict(cls=c) for c in ALL]),
    Contract(evaluate, [dict(cls=c) for c in ALL]),
    Contract(perk, [dict(cls=c) for c in ("SpectrumLin", "Spectrum1Loop", "Spectrum2Loop")]),
    Contract(corrections, [dict(cls=c) for c in ("A1Loop", "A2Loop", "B1Loop", "B2Loop")]),
    Contract(spectra, [dict(cls=c) for c in ("SpectrumLin", "SpectrumNoWiggle", "Spectrum1Loop", "Spectrum2Loop")]),
    Lemma(orders)])
