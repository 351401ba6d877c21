"""C23: the no-wiggle spectrum and the rms amplitudes."""
from .base import *
from pysym import guarded
from prop import Contract
from fractions import Fraction
from .c19 import make, ordered, positive, increasing

F = Fraction
DEFAULT = dict(h=R(F("0.676")), omega_b=R(F("0.022")), omega_m=R(F("0.21")), T_cmb=R(F("2.7255")))

def eisenstein_hu(k, h, om, ob, T):
    """transfer function without oscillations, Eisenstein & Hu 1998 (eqs 26, 28-31); k in h/Mpc, om and ob physical densities"""
    c = lambda x: R(F(x))
    s = c("44.5") * tm.log(c("9.83") / om) / tm.sqrt(R(1) + R(10) * tm.fn("powr", ob, c("0.75")))
    f = ob / om
    a = R(1) - c("0.328") * tm.log(R(431) * om) * f + c("0.38") * tm.log(c("22.3") * om) * f * f
    gam = om / h * (a + (R(1) - a) / (R(1) + tm.pw(c("0.43") * k * h * s, 4)))
    q = k * tm.pw(T / c("2.7"), 2) / gam
    L = tm.log(R(2) * tm.exp(tm.ONE) + c("1.8") * q)
    C = c("14.2") + R(731) / (R(1) + c("62.5") * q)
    return L / (L + C * q * q)

def none_or_some(D, name, lo, hi):
    """zero is a value like another"""
    x = D.real(name, lo=lo, hi=hi, pos=False, pick=lambda R_: R_.rng.choice([0., R_.rng.uniform(lo, hi), R_.rng.uniform(lo, hi)]))
    D.require(tm.le(tm.num(0), x))
    return x

def cosmology(D, W, given):
    """keyword arguments, and the physical parameters they stand for"""
    h = D.real("h", lo=0.3, hi=1.2, pos=True) if "h" in given else DEFAULT["h"]
    T = D.real("T_cmb", lo=1.5, hi=4., pos=True) if "T" in given else DEFAULT["T_cmb"]
    kw = {}
    if "h" in given: kw["h"] = W.scalar(h)
    if "T" in given: kw["T_cmb"] = W.scalar(T)
    om, ob = DEFAULT["omega_m"], DEFAULT["omega_b"]
    if "m" in given: om = D.real("omega_m", lo=0.08, hi=0.3, pos=True); kw["omega_m"] = W.scalar(om)
    if "b" in given: ob = none_or_some(D, "omega_b", 0.005, 0.05); kw["omega_b"] = W.scalar(ob)
    # fractions of the critical density win over physical densities
    if "M" in given: f = D.real("Omega_m", lo=0.1, hi=0.6, pos=True); om = f * h * h; kw["Omega_m"] = W.scalar(f)
    if "B" in given: f = none_or_some(D, "Omega_b", 0.01, 0.08); ob = f * h * h; kw["Omega_b"] = W.scalar(f)
    return kw, (h, om, ob, T)

@guarded
def transfer(D, W, given):
    n = D.integer("nk", lo=1, hi=4)
    o = make(W, D, "SpectrumNoWiggle", n, k=ordered)
    kw, par = cosmology(D, W, given)
    t = o.transfer(**kw)
    W.ensure_shape("shape", t, (n,))
    D.ensure_all("transfer function", n, lambda i: (W.val(t, i), eisenstein_hu(g("k", i), *par)))
    D.ensure_all("wavenumbers unchanged", n, lambda i: (W.val(o["k"], i), g("k", i)))

def g(nm, i): return tm.sel(tm.avar(nm), tm.lift(i, "I"))

@guarded
def nowiggle(D, W, norm, tilt=1, given="hmb", growth=0):
    """set_terms, run_terms, pk"""
    n = D.integer("nk", lo=1, hi=4)
    ks = W.array("ks", n, ordered)
    o = W.SpectrumNoWiggle()
    o.set_terms(ks)
    kw, par = cosmology(D, W, given)
    ns = D.real("n_s", lo=0.7, hi=1.3) if tilt else R(1)
    if tilt: kw["n_s"] = W.scalar(ns)
    A = none_or_some(D, "A", 0.1, 3.)
    if "A" in norm: kw["A"] = W.scalar(A)
    if "p" in norm: kw["pk"] = W.array("given", n, positive)
    o.run_terms(**kw)
    shape = lambda i: tm.fn("powr", g("ks", i), ns) * tm.pw(eisenstein_hu(g("ks", i), *par), 2) if tilt else g("ks", i) * tm.pw(eisenstein_hu(g("ks", i), *par), 2)
    amp = A if "A" in norm else g("given", 0) / shape(I(0))
    G = D.real("growth", lo=0.2, hi=2.)
    v = o.pk(W.scalar(G)) if growth else o.pk()
    D.ensure_all("spectrum", n, lambda i: (W.val(v, i), (amp * shape(i) * G * G) if growth else amp * shape(i)))
    D.ensure_all("stored spectrum", n, lambda i: (W.val(o["pk"], i), amp * shape(i)))
    D.ensure_all("stored wavenumbers", n, lambda i: (W.val(o["k"], i), g("ks", i)))
    D.ensure_all("input unchanged", n, lambda i: (W.val(ks, i), g("ks", i)))

def trapezoid(D, n, k, f):
    if D.real_mode:
        s = tm.num(0)
        for i in range(int(D.v(n)) - 1): s = s + (k(I(i + 1)) - k(I(i))) * (f(I(i)) + f(I(i + 1))) / 2
        return s
    return tm.asum(tm.IZERO, n - 1, lambda i: (k(i + 1) - k(i)) * (f(i) + f(i + 1)) / 2)
def window(x): return R(3) * (tm.sin(x) - x * tm.cos(x)) / tm.pw(x, 3)

@guarded
def amplitudes(D, W, cls, growth=1):
    n = D.integer("nk", lo=1, hi=5)
    o = make(W, D, cls, n, k=ordered, pk=positive)
    increasing(D, W)
    r = D.real("r", lo=1., hi=10., pos=True)
    G = D.real("growth", lo=0.2, hi=2., pos=True)
    kw = dict(Dgrowth=W.scalar(G)) if growth else {}
    pk = o.pk(**kw)
    P, k = (lambda i: W.val(pk, i)), (lambda i: g("k", i))
    two = 2 * tm.PI * tm.PI
    rms = lambda R_: tm.sqrt(trapezoid(D, n, k, lambda i: P(i) * tm.pw(window(k(i) * R_) * k(i), 2)) / two)
    v, s, e = o.sigmav(**kw), o.sigmar(W.scalar(r), **kw), o.sigma8(**kw)
    for nm, x in (("displacement", v), ("top-hat", s), ("radius 8", e)): W.ensure_shape(nm, x, ())
    D.ensure("displacement", W.val(v), tm.sqrt(trapezoid(D, n, k, P) / (3 * two)), rtol=1e-9)
    D.ensure("top-hat", W.val(s), rms(r), rtol=1e-9)
    D.ensure("radius 8", W.val(e), rms(R(8)), rtol=1e-9)
    for f in o.FIELDS: D.ensure_all("terms unchanged: " + f, n, lambda i: (W.val(o[f], i), g(f, i)))

@guarded
def linear(D, W, cls):
    """of a linear spectrum, in proportion to the growth factor"""
    n = D.integer("nk", lo=2, hi=5)
    o = make(W, D, cls, n, k=ordered, pk=positive)
    increasing(D, W)
    r = D.real("r", lo=1., hi=10., pos=True)
    G = D.real("growth", lo=0.2, hi=2., pos=True)
    a = [o.sigmav(Dgrowth=W.scalar(G)), o.sigmar(W.scalar(r), Dgrowth=W.scalar(G)), o.sigma8(Dgrowth=W.scalar(G))]
    b = [o.sigmav(), o.sigmar(W.scalar(r)), o.sigma8()]
    for nm, x, y in zip(("displacement", "top-hat", "radius 8"), a, b): D.ensure(nm, W.val(x), G * W.val(y))

PROP = dict(id="C23", items=[
    Contract(transfer, [dict(given=x) for x in ("", "hTmb", "hTMB", "hMb", "hmB", "MB", "hTmbMB")], n=(60, 400)),
    Contract(nowiggle, [dict(norm="A"), dict(norm="p"), dict(norm="Ap"), dict(norm="A", tilt=0), dict(norm="p", tilt=0, given=""), dict(norm="A", given="hTMB", growth=1)], n=(60, 400)),
    Contract(amplitudes, [dict(cls=c, growth=x) for c in ("SpectrumLin", "SpectrumNoWiggle", "Spectrum1Loop", "Spectrum2Loop") for x in (0, 1)]),
    Contract(linear, [dict(cls=c) for c in ("SpectrumLin", "SpectrumNoWiggle")])])
