"""C21: term collections, column by column."""
from .base import *
from pysym import guarded
from prop import Contract
from .c19 import make, ordered, positive, each, orig, NC, ORDER

ALL = list(ORDER)
def g(nm, i): return tm.sel(tm.avar(nm), tm.lift(i, "I"))
def two(cls, f): return f == "pk" and cls in NC

def entry(D, W, label, cls, f, x, i):
    """x (a column of one row) is row i of the declared column"""
    if two(cls, f):
        W.ensure_shape(label + " shape", x, (NC[cls],))
        for c in range(NC[cls]): D.ensure("%s[%d]" % (label, c), W.val(x, c), orig(cls, f)(i, c))
    else: D.ensure(label, W.val(x), orig(cls, f)(i))

def unchanged(D, W, cls, o, n, label="unchanged: ", but=()):
    for f in ORDER[cls]:
        if f not in but: each(D, W, label + f, cls, f, n, o[f], orig(cls, f))
def shapes(D, W, cls, o, n, label="shape "):
    for f in ORDER[cls]: W.ensure_shape(label + f, o[f], (n, NC[cls]) if two(cls, f) else (n,))
def fields(W, cls, o, label):
    W.check(label + ": columns", sorted(o.fields) == sorted(ORDER[cls]))
    W.check(label + ": class", type(o) is getattr(W, cls))

def start(D, W, cls, lo=1):
    n = D.integer("nk", lo=lo, hi=5)
    return n, make(W, D, cls, n, k=ordered)
def position(D, n, lo=0):
    i = D.integer("pos", lo=None, pick=lambda R_: R_.rng.randint(-R_.env["nk"], R_.env["nk"] - 1))
    D.require(tm.and_(tm.le(-n, i), tm.lt(i, n)))
    return i

@guarded
def one(D, W, cls):
    """a single position, counted from the start or from the end"""
    n, o = start(D, W, cls)
    i = position(D, n)
    r = o[W.scalar(i)]
    fields(W, cls, r, "row")
    j = tm.ite(tm.lt(i, I(0)), i + n, i)
    for f in ORDER[cls]: entry(D, W, "row of " + f, cls, f, r[f], j)
    unchanged(D, W, cls, o, n)

@guarded
def some(D, W, cls):
    """a range of positions"""
    n, o = start(D, W, cls)
    a = D.integer("a", lo=0, hi=4)
    b = D.integer("b", lo=0, hi=5)
    D.require(tm.and_(tm.le(a, b), tm.le(b, n)))
    r = o[W.scalar(a):W.scalar(b)]
    fields(W, cls, r, "rows")
    shapes(D, W, cls, r, b - a)
    for f in ORDER[cls]:
        s = orig(cls, f)
        each(D, W, "rows of " + f, cls, f, b - a, r[f], lambda i, *c: s(i + a, *c))
    W.check("length", True)
    D.ensure("size", W.val(r.size), b - a)
    unchanged(D, W, cls, o, n)

@guarded
def chosen(D, W, cls):
    """the positions where a condition holds"""
    n, o = start(D, W, cls)
    x = D.real("x", lo=0.01, hi=2.)
    r = o[o["k"] > W.scalar(x)]
    fields(W, cls, r, "rows")
    keep = lambda i: tm.lt(x, g("k", i))
    if D.real_mode:
        idx = [i for i in range(int(D.v(n))) if D.v(keep(i))]
        shapes(D, W, cls, r, len(idx))
        for f in ORDER[cls]:
            s = orig(cls, f)
            each(D, W, "rows of " + f, cls, f, I(len(idx)), r[f], lambda i, *c: s(I(idx[int(D.v(i))]), *c))
    else:
        for f in ORDER[cls]:
            x_ = r[f]
            W.check("selection of " + f, x_.mask is not None)
            s = orig(cls, f)
            D.prove("positions of " + f, tm.forall(tm.IZERO, n, lambda i: tm.or_(tm.and_(x_.mask[1](i), keep(i)), tm.and_(tm.not_(x_.mask[1](i)), tm.not_(keep(i))))))
            each(D, W, "rows of " + f, cls, f, n, x_, s)
    unchanged(D, W, cls, o, n)

@guarded
def assign(D, W, cls, how):
    """assigning by position"""
    n, o = start(D, W, cls)
    v = D.real("v", lo=-3, hi=3)
    if how == "one":
        i = position(D, n)
        o[W.scalar(i)] = W.scalar(v)
        j = tm.ite(tm.lt(i, I(0)), i + n, i)
        hit = lambda q: tm.eq(q, j)
    elif how == "some":
        a, b = D.integer("a", lo=0, hi=4), D.integer("b", lo=0, hi=5)
        D.require(tm.and_(tm.le(a, b), tm.le(b, n)))
        o[W.scalar(a):W.scalar(b)] = W.scalar(v)
        hit = lambda q: tm.and_(tm.le(a, q), tm.lt(q, b))
    else:
        x = D.real("x", lo=0.01, hi=2.)
        o[o["k"] > W.scalar(x)] = W.scalar(v)
        hit = None
        # the mask is what the wavenumbers were
        hit = lambda q: tm.lt(x, g("k", q))
    fields(W, cls, o, "collection")
    shapes(D, W, cls, o, n)
    for f in ORDER[cls]:
        s = orig(cls, f)
        each(D, W, "column " + f, cls, f, n, o[f], lambda i, *c: tm.ite(hit(i), v, s(i, *c)))

@guarded
def named(D, W, cls):
    """by name: that column only"""
    n, o = start(D, W, cls)
    for f in ORDER[cls]:
        W.check("contains " + f, f in o)
    W.check("does not contain", "nosuch" not in o)
    try:
        o["nosuch"]
        W.check("unknown name is refused", False)
    except KeyError: W.check("unknown name is refused", True)
    W.check("iteration", [f for f in o] == list(o.FIELDS) and sorted(f for f in o) == sorted(ORDER[cls]))
    W.check("list of columns", all(W.same_storage(x, o[f]) for x, f in zip(o.tolist(), o.FIELDS)) and len(o.tolist()) == len(o.FIELDS))
    D.ensure("size", W.val(o.size), n)
    D.ensure_all("wavenumbers", n, lambda i: (W.val(o.k, i), g("k", i)))
    d = o.as_dict()
    W.check("as_dict", sorted(d) == sorted(ORDER[cls]) and all(W.same_storage(d[f], o[f]) for f in d))
    d = o.as_dict(["k"])
    W.check("as_dict of chosen names", list(d) == ["k"] and W.same_storage(d["k"], o["k"]))
    z = W.array("z", n, ordered)
    o["k"] = z
    each(D, W, "assigned column", "", "", n, o["k"], lambda i: g("z", i))
    unchanged(D, W, cls, o, n, "other columns: ", but=("k",))
    o["extra"] = z
    W.check("new column", "extra" in o and "extra" in o.fields)
    p = o.pop("extra")
    W.check("removed column", "extra" not in o and W.same_storage(p, z))
    unchanged(D, W, cls, o, n, "columns after removal: ", but=("k",))
    c = getattr(W, cls)(**{f: o[f] for f in ORDER[cls]})
    fields(W, cls, c, "constructed from columns")
    for f in ORDER[cls]: W.check("constructed column " + f, W.same_storage(c[f], o[f]))

@guarded
def copies(D, W, cls, deep):
    n, o = start(D, W, cls)
    if deep: c = o.deepcopy()
    else: c = o.copy()
    fields(W, cls, c, "copy")
    shapes(D, W, cls, c, n)
    unchanged(D, W, cls, c, n, "contents of the copy: ")
    for f in ORDER[cls]:
        if deep: W.check("own storage of " + f, not W.same_storage(c[f], o[f]))
    z = W.array("z", n, ordered)
    # a column assigned, added or removed in one is not in the other
    c["k"] = z
    c["more"] = z
    fields(W, cls, o, "original")
    unchanged(D, W, cls, o, n, "original after assignment to the copy: ")
    o["less"] = z
    W.check("column added to the original", "less" not in c)
    o.pop("less"); c.pop("more")
    if deep:
        c.rescale(W.scalar(D.real("growth", lo=0.2, hi=2.)))
        c[0] = W.scalar(D.real("v"))
        unchanged(D, W, cls, o, n, "original after changing the copy: ")
        shapes(D, W, cls, o, n, "shape of the original ")

@guarded
def linear_copy(D, W, cls, deep):
    """copies of calculations keep the linear spectrum (a deep copy has its own)"""
    n, o = start(D, W, cls)
    m = D.integer("nlin", lo=3, hi=6)
    lk, lp = W.array("lk", m, ordered), W.array("lp", m, positive)
    o.set_pk_lin(lk, lp)
    c = o.deepcopy() if deep else o.copy()
    for f, s in (("k", "lk"), ("pk", "lp")):
        D.ensure_all("linear spectrum %s" % f, m, lambda i: (W.val(c.spectrum_lin[f], i), g(s, i)))
        if deep: W.check("own storage of the linear spectrum " + f, not W.same_storage(c.spectrum_lin[f], o.spectrum_lin[f]))
    if deep:
        c.spectrum_lin.rescale(W.scalar(D.real("growth", lo=0.2, hi=2.)))
        D.ensure_all("linear spectrum of the original", m, lambda i: (W.val(o.spectrum_lin["pk"], i), g("lp", i)))

def longer(D, W, n, aligned=1):
    """a list of wavenumbers with ps of them below the first and pe of them above the last of the collection"""
    ps, pe = D.integer("ps", lo=0, hi=3), D.integer("pe", lo=0, hi=3)
    mid = n if aligned else D.integer("mid", lo=0, hi=4)
    tot = ps + mid + pe
    def gen(R_, N):
        k = R_.env["k"]
        a, b = R_.env["ps"], R_.env["pe"]
        c = N - a - b
        m = list(k) if c == len(k) else sorted(R_.rng.uniform(k[0], k[-1]) for _ in range(c))
        return sorted(R_.rng.uniform(0.1, 0.9) * k[0] for _ in range(a)) + m + sorted(R_.rng.uniform(1.1, 3) * k[-1] for _ in range(b))
    new = W.array("new", tot, gen)
    if not D.real_mode:
        z = lambda i: g("new", i)
        k0, k1 = g("k", 0), g("k", n - 1)
        D.require(tm.le(k0, k1))
        W.step_down(lambda i: tm.lt(z(i), k0), tot, ps)
        W.step_up(lambda i: tm.lt(k1, z(i)), tot, tot - pe)
    return ps, pe, mid, tot, new

@guarded
def pad(D, W, cls, mode="constant", fill=1, aligned=1, extra=0):
    n = D.integer("nk", lo=1, hi=4)
    lib = cls not in ("SpectrumLin", "SpectrumNoWiggle")
    if lib: tab = PTab(D, W)
    o = make(W, D, cls, n, k=ordered)
    if lib: o.set_pk_lin(tab.ka, tab.pa)
    ps, pe, mid, tot, new = longer(D, W, n, aligned)
    kw = {}
    v = R(0)
    if fill: v = D.real("v", lo=-3, hi=3); kw["constant_values"] = W.scalar(v)
    if mode != "constant": kw = dict(mode=mode)
    if extra: kw["pk"] = W.array("given", tot, positive)
    if lib and extra == 0: kw["interpol"] = "lin"
    o.pad_k(new, **kw)
    N = ps + n + pe
    shapes(D, W, cls, o, N)
    fields(W, cls, o, "padded")
    for f in ORDER[cls]:
        s = orig(cls, f)
        def want(i, *c):
            before, after = tm.lt(i, ps), tm.le(ps + n, i)
            kn = tm.ite(before, g("new", i), g("new", i - (ps + n) + (tot - pe)))
            if f == "k": x = kn
            elif f == "pk_lin" and lib: x = tab.P(kn, 0)
            elif f == "sigmad2" and lib: x = tab.sig(kn, Fraction(1, 2))
            elif f == "pk" and extra: x = tm.ite(before, g("given", i), g("given", i - (ps + n) + (tot - pe)))
            elif mode == "edge": x = tm.ite(before, s(I(0), *c), s(n - 1, *c))
            else: x = v
            return tm.ite(tm.or_(before, after), x, s(i - ps, *c))
        each(D, W, "padded " + f, cls, f, N, o[f], want)
    D.ensure_all("list of wavenumbers unchanged", tot, lambda i: (W.val(new, i), g("new", i)))

@guarded
def invalid(D, W, cls):
    """not-a-numbers become zeros"""
    n = D.integer("nk", lo=1, hi=5)
    bad = lambda R_, N: [R_.rng.choice([float("nan"), 0., R_.rng.uniform(-2, 2), float("inf"), -float("inf")]) for _ in range(N)]
    o = make(W, D, cls, n, **{f: bad for f in ORDER[cls]})
    if D.real_mode:
        import numpy as np
        before = {f: np.array(o[f]) for f in ORDER[cls]}
        if cls in NC and D.rng.random() < 0.7: o["pk"].flat[0] = before["pk"].flat[0] = float("nan")
    o.nan_to_zero()
    shapes(D, W, cls, o, n)
    for f in ORDER[cls]:
        if D.real_mode:
            import numpy as np
            ok = np.array_equal(np.where(np.isnan(before[f]), 0., before[f]), o[f])
            D.results.append(("ensures", "column " + f, str(o[f])[:60], str(before[f])[:60], bool(ok)))
        else:
            s = orig(cls, f)
            each(D, W, "column " + f, cls, f, n, o[f], lambda *i: tm.ite(tm.bfn("isnan", s(*i)), R(0), s(*i)))

@guarded
def zeros(D, W, cls, step=1):
    """wavenumbers set, everything else zero"""
    n = D.integer("nk", lo=0, hi=5)
    ks = W.array("ks", n, ordered, step=step)
    o = getattr(W, cls)()
    o.zeros(ks)
    for f in ORDER[cls]:
        W.ensure_shape("shape " + f, o[f], (n * NC[cls] if two(cls, f) else n,))
        W.check("own storage of " + f, not W.same_storage(o[f], ks))
    W.check("separate columns", not any(W.same_storage(o[a], o[b]) for a in ORDER[cls] for b in ORDER[cls] if a < b))
    D.ensure_all("wavenumbers", n, lambda i: (W.val(o["k"], i), g("ks", i)))
    for f in ORDER[cls]:
        if f != "k": D.ensure_all("zero " + f, n * NC[cls] if two(cls, f) else n, lambda i: (W.val(o[f], i), R(0)))
    fields(W, cls, o, "collection")

class PTab(Tab):
    """the linear spectrum as arrays of the Python side"""
    def __init__(self, D, W, dtype="f8", step=1, nlo=3, nhi=8, name=""):
        Tab.__init__(self, Arrays(D, W, dtype, step), nlo, nhi, name)
        self.ka, self.pa = self.k.arr, self.pk.arr
class Arrays(object):
    def __init__(self, D, W, dtype, step): self.__dict__.update(_D=D, _W=W, _dt=dtype, _step=step)
    def __getattr__(self, n): return getattr(self._D, n)
    def array(self, name, n, gen=None):
        a = self._W.array(name, n, gen, dtype=self._dt, step=self._step)
        return View(name, a)
class View(object):
    def __init__(self, name, arr): self.name, self.arr = name, arr
    def __getitem__(self, i): return g(self.name, i)

from fractions import Fraction
SOME = ("SpectrumLin", "Spectrum2Loop", "A1Loop", "B1Loop")
PAD = ("SpectrumLin", "Spectrum1Loop", "Spectrum2Loop", "Bias1Loop", "A1Loop", "A2Loop", "B1Loop", "B2Loop")
PROP = dict(id="C21", items=[
    Contract(one, [dict(cls=c) for c in SOME]), Contract(some, [dict(cls=c) for c in SOME]), Contract(chosen, [dict(cls=c) for c in SOME]),
    Contract(assign, [dict(cls=c, how=h) for c in ("SpectrumLin", "Spectrum1Loop", "A1Loop") for h in ("one", "some", "chosen")]),
    Contract(named, [dict(cls=c) for c in ALL]),
    Contract(copies, [dict(cls=c, deep=d) for c in ALL for d in (0, 1)]),
    Contract(linear_copy, [dict(cls=c, deep=d) for c in ("Spectrum1Loop", "B2Loop") for d in (0, 1)]),
    Contract(pad, [dict(cls=c) for c in PAD] + [dict(cls=c, fill=0) for c in ("SpectrumLin", "A1Loop")] + [dict(cls=c, mode="edge") for c in ("SpectrumLin", "Bias1Loop", "B1Loop")] +
             [dict(cls="SpectrumLin", extra=1), dict(cls="SpectrumLin", extra=1, aligned=0), dict(cls="SpectrumLin", aligned=0), dict(cls="Spectrum1Loop", aligned=0)]),
    Contract(invalid, [dict(cls=c) for c in ("SpectrumLin", "Spectrum2Loop", "A1Loop", "B1Loop")]),
    Contract(zeros, [dict(cls=c) for c in ALL] + [dict(cls=c, step=2) for c in ("SpectrumLin", "B1Loop")])])
