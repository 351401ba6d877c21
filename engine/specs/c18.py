"""C18: assembly of the resummed power spectra, in the library and in Python."""
from .base import *
from pysym import guarded
from prop import Contract, Lemma
import solve

F1 = ["pk_lin", "sigmad2", "gamma1a_1loop", "gamma1b_1loop", "pk_gamma2_tree_tree"]
F2L = ["pk_lin", "sigmad2", "gamma1a_1loop", "gamma1a_2loop", "gamma1b_1loop", "gamma1b_2loop", "pk_gamma2_tree_tree", "pk_gamma2_tree_1loop",
       "pk_gamma2_1loop_1loop", "pk_gamma3_tree"]

def regpt1(k, t, D=None):
    """published resummed spectrum (Taruya et al. 2012, eqs 23, 24) at one loop and growth D"""
    D = R(1) if D is None else D
    f = k * k * D * D * t["sigmad2"] / 2
    e = tm.exp(-f)
    g = lambda l: D * e * (1 + f + D * D * t["gamma1%s_1loop" % l])
    return g("a") * g("b") * t["pk_lin"] + tm.pw(D, 4) * e * e * t["pk_gamma2_tree_tree"]
def regpt2(k, t, D=None):
    D = R(1) if D is None else D
    f = k * k * D * D * t["sigmad2"] / 2
    e = tm.exp(-f)
    g = lambda l: D * e * (1 + f + f * f / 2 + D * D * t["gamma1%s_1loop" % l] * (1 + f) + tm.pw(D, 4) * t["gamma1%s_2loop" % l])
    p2 = tm.pw(D, 4) * e * e * (t["pk_gamma2_tree_tree"] * (1 + f) * (1 + f) + D * D * t["pk_gamma2_tree_1loop"] * (1 + f) + tm.pw(D, 4) * t["pk_gamma2_1loop_1loop"])
    return g("a") * g("b") * t["pk_lin"] + p2 + tm.pw(D, 6) * e * e * t["pk_gamma3_tree"]
SPEC = {1: (F1, regpt1), 2: (F2L, regpt2)}

def assembly(D, loop):
    F, spec = SPEC[loop]
    nk = D.integer("nk", lo=0, hi=5)
    k = D.array("k", nk, lambda R_, n: [R_.rng.uniform(0.01, 2.) for _ in range(n)])
    cols = {f: D.array(f, nk, (lambda R_, n: [R_.rng.uniform(0, 4) for _ in range(n)]) if f == "sigmad2" else (lambda R_, n: [R_.rng.uniform(-2, 5) for _ in range(n)])) for f in F}
    out, sw = D.array("out", nk), D.array("swapped", nk)
    D.call("set_terms_spectrum_%dloop" % loop, nk, k, *[cols[f] for f in F])
    D.call("spectrum_%dloop" % loop, out)
    D.ensure_all("spectrum", nk, lambda i: (D.out(out, i), spec(k[i], {f: cols[f][i] for f in F})))
    # exchanging the two legs
    exch = {f: f.replace("gamma1a", "gamma1X").replace("gamma1b", "gamma1a").replace("gamma1X", "gamma1b") for f in F}
    D.call("set_terms_spectrum_%dloop" % loop, nk, k, *[cols[exch[f]] for f in F])
    D.call("spectrum_%dloop" % loop, sw)
    D.ensure_all("exchange of the legs", nk, lambda i: (D.out(sw, i), D.out(out, i)))
    for f in F: D.ensure_all("terms unchanged: " + f, nk, lambda i: (D.out(cols[f], i), cols[f][i]))

# ------------------------------------------------------------------ which value goes into which column
def cut1(name, nargs):
    return opaque(name, nargs)
def cut_void(name, nin, outs):
    def h(ex, st, a, node, fn):
        if len(a) != nin + len(outs): return NotImplemented
        for o, p in zip(outs, a[nin:]): ex.store(st, p, o(*a[:nin]), node)
        return None
    return h
def sym(name): return lambda a, b, k: tm.fn(name, *(sorted([a, b], key=lambda t: tm.numkey([t])) + [k]))
G1 = lambda a, k: tm.fn("G1one", a, k)
G1L = lambda a, k: tm.fn("G1two", a, k)
WIRE = dict(BASE, gamma1_1loop=opaque("G1one", 2),
            calc_pk_gamma1_2loop=cut_void("g", 3, [lambda a, b, k: G1(a, k), lambda a, b, k: G1L(a, k), lambda a, b, k: G1(b, k), lambda a, b, k: G1L(b, k)]),
            calc_pk_gamma2_tree=cut_void("g", 3, [sym("G2tt")]),
            calc_pk_gamma2_1loop=cut_void("g", 3, [sym("G2tt"), sym("G2t1"), sym("G211")]),
            calc_pk_gamma3_tree=cut_void("g", 3, [sym("G3tt")]))
FLD = {"delta": 0, "theta": 1}

def realfns(D):
    """the same functions from the library, called on their own"""
    import ctypes
    d = ctypes.c_double
    memo = {}
    def fam(name):
        def f(*a):
            key = (name,) + tuple(float(x) for x in a)
            if key in memo: return memo[key]
            L = D.lib
            for x in ("gamma1_1loop", "gamma1_2loop", "gamma2_tree", "gamma2d_1loop", "gamma2t_1loop", "gamma3_tree"): getattr(L, "init_" + x)()
            o = [d() for _ in range(4)]
            r = [ctypes.byref(x) for x in o]
            if name in ("G1one", "G1two"):
                L.calc_pk_gamma1_2loop(int(a[0]), int(a[0]), d(float(a[1])), *r)
                v = {"G1one": o[0].value, "G1two": o[1].value}[name]
            elif name == "G3tt":
                L.calc_pk_gamma3_tree(int(a[0]), int(a[1]), d(float(a[2])), r[0]); v = o[0].value
            else:
                L.calc_pk_gamma2_1loop(int(a[0]), int(a[1]), d(float(a[2])), *r[:3])
                v = {"G2tt": o[0], "G2t1": o[1], "G211": o[2]}[name].value
            for x in ("gamma1_1loop", "gamma1_2loop", "gamma2_tree", "gamma2d_1loop", "gamma2t_1loop", "gamma3_tree"): getattr(L, "free_" + x)()
            memo[key] = v
            return v
        return f
    for n in ("G1one", "G1two", "G2tt", "G2t1", "G211", "G3tt"): D.env["fn:" + n] = fam(n)

def small(D):
    for c in ("gamma1_1loop", "gamma1_2loop", "gamma2_tree", "gamma2d_1loop", "gamma2t_1loop"): D.call("set_precision_%s_q" % c, 4, 1e-3, 5., "poly")
    D.call("set_precision_gamma2_tree_mu", 3, "lin")

def wiring(D, loop, a, b, alone=0):
    tab = Tab(D)
    if D.real_mode: realfns(D)
    tab.set()
    small(D)
    F, spec = SPEC[loop]
    nk = D.integer("nk", lo=1, hi=4)
    uv = D.real("uvcutoff", lo=0.1, hi=2.)
    k = D.array("k", nk, lambda R_, n: [R_.rng.uniform(0.02, 1.) for _ in range(n)])
    D.call("set_precision_spectrum_%dloop_pk_lin" % loop, "lin")
    D.call("set_running_uvcutoff_spectrum_%dloop" % loop, uv)
    fa, fb = I(FLD[a]), I(FLD[b])
    def terms(x):
        t = dict(pk_lin=tab.P(x, 0), sigmad2=tab.sig(x, uv), gamma1a_1loop=G1(fa, x), gamma1b_1loop=G1(fb, x), pk_gamma2_tree_tree=sym("G2tt")(fa, fb, x))
        if loop == 2: t.update(gamma1a_2loop=G1L(fa, x), gamma1b_2loop=G1L(fb, x), pk_gamma2_tree_1loop=sym("G2t1")(fa, fb, x), pk_gamma2_1loop_1loop=sym("G211")(fa, fb, x), pk_gamma3_tree=sym("G3tt")(fa, fb, x))
        return t
    if alone:
        out = D.array("out", nk)
        D.call("set_spectrum_1loop", nk, k, out)
        D.call("run_spectrum_1loop", a, b, 2)
        D.ensure_all("spectrum", nk, lambda i: (D.out(out, i), spec(k[i], terms(k[i]))))
    else:
        cols = [D.array(f, nk) for f in F]
        D.call("set_terms_spectrum_%dloop" % loop, nk, k, *cols)
        D.call("run_terms_spectrum_%dloop" % loop, a, b, 2)
        for f, c in zip(F, cols): D.ensure_all(f, nk, lambda i: (D.out(c, i), terms(k[i])[f]))
    D.freed()

def expansion(ctx):
    """expanding the damping recovers standard perturbation theory through the order computed: with every stored term
    proportional to eps to the power of its number of linear spectra (sigma ~ eps, P ~ eps, gamma_n ~ eps^n ...), the
    series of the assembled spectrum has the terms of SPT (P, P(ga+gb)+P22, two-loop terms) free of sigma"""
    import sympy as sp
    e, k, s, P, ga, gb, ga2, gb2, tt, t1, oo, g3 = sp.symbols("e k s P ga gb ga2 gb2 tt t1 oo g3")
    out = []
    def ser(x, n): return sp.expand(sp.series(x, e, 0, n).removeO())
    f = k ** 2 * s * e / 2
    E = sp.exp(-f)
    p1 = E * (1 + f + e * ga) * E * (1 + f + e * gb) * P * e + E ** 2 * e ** 2 * tt
    r = ser(p1, 3)
    ok = sp.expand(r - (P * e + e ** 2 * (P * (ga + gb) + tt))) == 0
    out.append(("one loop: SPT through second order in the linear spectrum", "proved" if ok else "violated", "sympy series", str(r)))
    G = lambda a, b: E * (1 + f + f ** 2 / 2 + e * a * (1 + f) + e ** 2 * b)
    p2 = G(ga, ga2) * G(gb, gb2) * P * e + E ** 2 * (e ** 2 * tt * (1 + f) ** 2 + e ** 3 * t1 * (1 + f) + e ** 4 * oo) + E ** 2 * e ** 3 * g3
    r = ser(p2, 4)
    ok = sp.expand(r - (P * e + e ** 2 * (P * (ga + gb) + tt) + e ** 3 * (P * (ga2 + gb2 + ga * gb) + t1 + g3))) == 0
    out.append(("two loops: SPT through third order in the linear spectrum", "proved" if ok else "violated", "sympy series", str(r)))
    return out

def columns(W, D, cls, n, gens=None):
    """a term collection of the given class whose columns are declared inputs"""
    o = getattr(W, cls)()
    for f in o.FIELDS: o[f] = W.array(f, n, (gens or {}).get(f, lambda R_, N: [R_.rng.uniform(-2, 5) for _ in range(N)]))
    return o
GENS = dict(k=lambda R_, n: [R_.rng.uniform(0.01, 1.5) for _ in range(n)], sigmad2=lambda R_, n: [R_.rng.uniform(0, 4) for _ in range(n)])
def col(W, f, n=None):
    """the declared contents of a column, as the specification sees it"""
    return lambda i: tm.sel(tm.avar(f), tm.lift(i, "I"))

@guarded
def python_assembly(D, W, loop, override=0):
    F, spec = SPEC[loop]
    n = D.integer("nk", lo=1, hi=5)
    o = columns(W, D, "Spectrum%dLoop" % loop, n, GENS)
    c = {f: col(W, f) for f in F + ["k"]}
    G = D.real("growth", lo=0.2, hi=2.)
    t = lambda i: {f: c[f](i) for f in F}
    if override:
        sg = W.array("othersigma", n, GENS["sigmad2"])
        pk = o.pk(W.scalar(G), sigmad2=sg)
        D.ensure_all("spectrum with the given dispersion", n, lambda i: (W.val(pk, i), spec(c["k"](i), dict(t(i), sigmad2=col(W, "othersigma")(i)), G)))
        # one dispersion for all, zero (no damping) included
        s1 = D.real("onesigma", lo=None, pos=False, pick=lambda D: D.rng.choice([0., 1.]) * D.rng.uniform(0.2, 4))
        D.require(tm.le(tm.ZERO, s1))
        pk = o.pk(W.scalar(G), sigmad2=W.scalar(s1))
        D.ensure_all("spectrum with a given dispersion", n, lambda i: (W.val(pk, i), spec(c["k"](i), dict(t(i), sigmad2=s1), G)))
        return
    pk = o.pk()
    W.ensure_shape("shape", pk, (n,))
    D.ensure_all("spectrum at unit growth", n, lambda i: (W.val(pk, i), spec(c["k"](i), t(i))))
    pg = o.pk(W.scalar(G))
    D.ensure_all("spectrum at a growth factor", n, lambda i: (W.val(pg, i), spec(c["k"](i), t(i), G)))
    pl = o.pk_lin(W.scalar(G))
    D.ensure_all("linear spectrum", n, lambda i: (W.val(pl, i), G * G * c["pk_lin"](i)))
    for f in F: D.ensure_all("terms unchanged: " + f, n, lambda i: (W.val(o[f], i), c[f](i)))
    # exchange of the legs
    if loop == 2: pairs_ = (("gamma1a_1loop", "gamma1b_1loop"), ("gamma1a_2loop", "gamma1b_2loop"))
    else: pairs_ = (("gamma1a_1loop", "gamma1b_1loop"),)
    for a, b in pairs_:
        x, y = o[a], o[b]
        o[a], o[b] = y, x
    ps = o.pk(W.scalar(G))
    D.ensure_all("exchange of the legs", n, lambda i: (W.val(ps, i), W.val(pg, i)))

CASES = [dict(loop=l, a=a, b=b) for l in (1, 2) for a, b in (("delta", "delta"), ("delta", "theta"), ("theta", "delta"), ("theta", "theta"))]
PROP = dict(id="C18", items=[
    Contract(assembly, [dict(loop=1), dict(loop=2)]),
    Contract(wiring, CASES + [dict(loop=1, a="delta", b="theta", alone=1), dict(loop=1, a="theta", b="theta", alone=1)], cuts=WIRE, n=(10, 60)),
    Contract(python_assembly, [dict(loop=1), dict(loop=2), dict(loop=1, override=1), dict(loop=2, override=1)]),
    Lemma(expansion)])
