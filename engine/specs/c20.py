"""C20: what Python hands to the library."""
from .base import *
from pysym import guarded
from prop import Contract, MEM
from .c19 import make, ordered, positive, each, orig, NC, ORDER
from .c18 import F1, F2L, cut_void, WIRE, small
from .c15 import COLS as BIASCOLS
from .c21 import PTab, Arrays, g, fields

# the order in which the library's functions take the columns
BASICS = ["pk_lin", "sigmad2"]
COLUMNS = dict(Spectrum1Loop=("spectrum_1loop", F1), Spectrum2Loop=("spectrum_2loop", F2L), Bias1Loop=("bias_1loop", BASICS + [c[0] for c in BIASCOLS]),
               A1Loop=("A_1loop", BASICS + ["pk"]), A2Loop=("A_2loop", BASICS + ["pk"]), B1Loop=("B", BASICS + ["pk"]), B2Loop=("B", BASICS + ["pk"]))

# ------------------------------------------------------------------ the calculation at one wavenumber, under its own properties' contracts
def cut_bias(ex, st, a, node, fn):
    if len(a) != 4 or not isinstance(a[2], sx.FnPtr): return NotImplemented
    return tm.fn("BIAS" + a[2].fn.name, ex.as_int(a[0]), a[1], ex.as_int(a[3]))
def cut_arr(name, n):
    def h(ex, st, a, node, fn):
        if len(a) != 2: return NotImplemented
        for i in range(n): ex.store(st, Ptr(a[1].obj, a[1].path, tm.add(a[1].off, I(i))), tm.fn("%s%d" % (name, i), a[0]), node)
        return None
    return h
def cut_B(ex, st, a, node, fn):
    """B at one wavenumber, of whatever spectra the calculation holds (recorded)"""
    if len(a) != 2: return NotImplemented
    try: t = [ex.root(st, ex.gobj(nm, fn.file)) for nm in ("pk_dt", "pk_tt")]
    except Exception: return NotImplemented
    if not all(isinstance(x, St) for x in t): return NotImplemented
    names = []
    for x in t:
        extent(ex, st, x.f["k"], x.f["nk"], node)
        extent(ex, st, x.f["pk"], x.f["nk"], node)
        ex.spectra = getattr(ex, "spectra", {})
        kp, v = ex.norm(st, x.f["k"], node)
        pp, u = ex.norm(st, x.f["pk"], node)
        ex.spectra[len(names)] = (x.f["nk"], v.t, kp.off, u.t, pp.off)
        names.append(1)
    for i in range(12): ex.store(st, Ptr(a[1].obj, a[1].path, tm.add(a[1].off, I(i))), tm.fn("BB%d" % i, a[0]), node)
    return None
CUTS = dict(WIRE, calc_pk_bias_1loop=cut_bias, calc_pk_A_1loop=cut_arr("AA", 5), calc_pk_A_2loop_I=cut_arr("AI", 12), calc_pk_A_2loop_II_III=cut_arr("AII", 12), calc_pk_B=cut_B)

def light(D):
    """coarse settings, so that the compiled library answers quickly"""
    if not D.real_mode: return
    small(D)
    for c in ("bias_1loop", "A_1loop", "A_2loop_I", "B"):
        D.call("set_precision_%s_q" % c, 3, 1e-3, 5., "lin")
        D.call("set_precision_%s_mu" % c, 2, "lin")
    for c in ("gamma3_tree", "A_2loop_II_III"): D.call("set_precision_%s_q" % c, 1e-2, 1., "lin")

# ------------------------------------------------------------------ wavenumbers in any form
FORMS = ("f8", "f4", "i8", "strided", "reversed", "list", "2d", "scalar")
def wavenumbers(D, W, form, name="kin"):
    """(what is given to Python, number of wavenumbers, i -> wavenumber)"""
    gen = lambda R_, N: sorted(R_.rng.uniform(0.02, 0.9) for _ in range(N))
    if form == "i8": gen = lambda R_, N: sorted(float(R_.rng.randint(1, 3)) for _ in range(N))
    z = lambda i: g(name, i)
    if form == "list":
        v = [D.real("%s_%d" % (name, i), lo=0.02, hi=0.9) for i in range(3)]
        def f(i):
            if D.real_mode: return v[int(D.v(i))]
            return tm.ite(tm.eq(i, I(0)), v[0], tm.ite(tm.eq(i, I(1)), v[1], v[2]))
        return [W.scalar(x) for x in v], I(3), f
    if form == "scalar":
        v = D.real(name + "_0", lo=0.02, hi=0.9)
        return W.scalar(v), I(1), lambda i: v
    n = D.integer("nk", lo=1, hi=4)
    if form == "2d":
        a = W.array(name, tm.mul(n, I(2)), gen)
        return a.reshape(W.scalar(n), 2), tm.mul(n, I(2)), z
    if form == "2dT":
        a = W.array(name, tm.mul(n, I(2)), gen)
        return a.reshape(W.scalar(n), 2).T, tm.mul(n, I(2)), lambda i: g(name, tm.add(tm.mul(tm.imod(i, n), I(2)), tm.idiv(i, n)))
    if form == "reversed":
        a = W.array(name, n, gen)
        return a[::-1], n, lambda i: g(name, n - 1 - i)
    a = W.array(name, n, gen, dtype=form if form in ("f4", "i8") else "f8", step=2 if form == "strided" else 1)
    return a, n, z

def expected(D, cls, tab, kf, n, nthreads, tag=""):
    """the library's own functions called with every column in its place"""
    nm, F = COLUMNS[cls]
    kk = D.filled("k!" + tag, n, kf)
    cols = {f: D.array(f + "!" + tag, tm.mul(n, I(NC[cls])) if f == "pk" and cls in NC else n) for f in F}
    lk, lp = D.filled("lk!" + tag, tab.n, lambda i: tab.k[i]), D.filled("lp!" + tag, tab.n, lambda i: tab.pk[i])
    D.call("set_pk_lin", lk, lp, tab.n)
    sp = {}
    if cls == "B1Loop":
        D.call("set_spectra_B", "delta", "theta", tab.n, lk, lp)
        D.call("set_spectra_B", "theta", "theta", tab.n, lk, lp)
    if cls == "B2Loop":
        for a in ("delta", "theta"):
            sp[a] = D.array("pk%s!%s" % (a, tag), tab.n)
            D.call("set_spectrum_1loop", tab.n, lk, sp[a])
            D.call("run_spectrum_1loop", a, "theta", nthreads)
        for a in ("delta", "theta"): D.call("set_spectra_B", a, "theta", tab.n, lk, sp[a])
    D.call("set_terms_" + nm, n, kk, *[cols[f] for f in F])
    if cls.startswith("Spectrum"): D.call("run_terms_" + nm, *(expected.fields + (nthreads,)))
    else: D.call("run_terms_" + nm, nthreads)
    return kk, cols, sp, lk, lp

def compare(D, W, cls, o, n, kf, cols, label=""):
    nm, F = COLUMNS[cls]
    D.ensure_all(label + "wavenumbers", n, lambda i: (W.val(o["k"], i), kf(i)))
    for f in F:
        if f == "pk" and cls in NC:
            W.ensure_shape(label + "shape " + f, o[f], (n, NC[cls]))
            for c in range(NC[cls]): D.ensure_all(label + "%s[%d]" % (f, c), n, lambda i: (W.val(o[f], i, c), D.out(cols[f], tm.add(tm.mul(i, I(NC[cls])), I(c)))), rtol=1e-12)
        else:
            W.ensure_shape(label + "shape " + f, o[f], (n,))
            D.ensure_all(label + f, n, lambda i: (W.val(o[f], i), D.out(cols[f], i)), rtol=1e-12)

@guarded
def pipeline(D, W, cls, form="f8", table="f8", fields_=("delta", "delta")):
    """set_terms and run_terms do what the library's functions do with every column in its place"""
    tab = PTab(D, W, dtype=table if table in ("f4",) else "f8", step=2 if table == "strided" else 1)
    light(D)
    kin, n, kf = wavenumbers(D, W, form)
    expected.fields = fields_
    o = getattr(W, cls)()
    o.set_pk_lin(tab.ka, tab.pa)
    o.set_terms(kin)
    if cls.startswith("Spectrum"): o.run_terms(a=fields_[0], b=fields_[1], nthreads=2)
    else: o.run_terms(nthreads=2)
    W.check("columns of the collection", sorted(o.fields) == sorted(ORDER[cls]))
    spectra = dict(getattr(D.E, "spectra", {})) if not D.real_mode else {}
    kk, cols, sp, lk, lp = expected(D, cls, tab, kf, n, 2)
    compare(D, W, cls, o, n, kf, cols)
    if not D.real_mode:
        # the spectra the B calculation works with
        for which, a in ((0, "delta"), (1, "theta")):
            if which not in spectra: continue
            m, kt, ko, pt, po = spectra[which]
            D.ensure("number of points of the %s spectrum" % a, m, tab.n)
            D.ensure_all("wavenumbers of the %s spectrum" % a, tab.n, lambda i: (D.E.simp(D.st, tm.sel(kt, tm.add(ko, i))), tab.k[i]))
            want = (lambda i: D.out(sp[a], i)) if cls == "B2Loop" else (lambda i: tab.pk[i])
            D.ensure_all("values of the %s spectrum" % a, tab.n, lambda i: (D.E.simp(D.st, tm.sel(pt, tm.add(po, i))), want(i)))
    D.ensure_all("linear spectrum: wavenumbers unchanged", tab.n, lambda i: (W.val(tab.ka, i), tab.k[i]))
    D.ensure_all("linear spectrum unchanged", tab.n, lambda i: (W.val(tab.pa, i), tab.pk[i]))

def replaced(D, W, cls, o, n, how):
    """columns of another type, layout or kind put in place of the calculation's own"""
    if how == "f4": o["pk_lin"] = W.array("newpk", n, positive, dtype="f4")
    if how == "strided": o["sigmad2"] = W.array("newsig", n, positive, step=3)
    if how == "k": o["k"] = W.array("newk", n, lambda R_, N: sorted(R_.rng.uniform(0.02, 0.9) for _ in range(N)), step=2)
    if how == "f4k": o["k"] = W.array("newk", n, lambda R_, N: sorted(R_.rng.uniform(0.02, 0.9) for _ in range(N)), dtype="f4")

@guarded
def rerun(D, W, cls, how):
    """running again after columns were replaced, rows selected or the collection copied"""
    tab = PTab(D, W)
    light(D)
    expected.fields = ("delta", "theta")
    run = lambda o: o.run_terms(a="delta", b="theta", nthreads=2) if cls.startswith("Spectrum") else o.run_terms(nthreads=2)
    n = D.integer("nk", lo=2, hi=5)
    kin = W.array("kin", n, lambda R_, N: sorted(R_.rng.uniform(0.02, 0.9) for _ in range(N)))
    kf = lambda i: g("kin", i)
    o = getattr(W, cls)()
    o.set_pk_lin(tab.ka, tab.pa)
    o.set_terms(kin)
    m = n
    if how in ("f4", "strided", "k", "f4k"):
        replaced(D, W, cls, o, n, how)
        if how in ("k", "f4k"): kf = lambda i: g("newk", i)
    elif how == "rows":
        a, b = D.integer("a", lo=0, hi=2), D.integer("b", lo=0, hi=5)
        D.require(tm.and_(tm.lt(a, b), tm.le(b, n)))
        run(o)
        o = o[W.scalar(a):W.scalar(b)]
        o.set_pk_lin(tab.ka, tab.pa)
        m, kf = b - a, lambda i: g("kin", i + a)
    elif how == "every other":
        run(o)
        o = o[::2]
        o.set_pk_lin(tab.ka, tab.pa)
        m, kf = tm.idiv(n + 1, I(2)), lambda i: g("kin", i * 2)
    elif how == "twice": run(o)
    elif how == "copy": o = o.deepcopy()
    run(o)
    kk, cols, sp, lk, lp = expected(D, cls, tab, kf, m, 2)
    compare(D, W, cls, o, m, kf, cols)
    D.ensure_all("given wavenumbers unchanged", n, lambda i: (W.val(kin, i), g("kin", i)))

# ------------------------------------------------------------------ other functions
@guarded
def lookup(D, W, form, table="f8", itp="poly"):
    tab = PTab(D, W, dtype="f4" if table == "f4" else "f8", step=2 if table == "strided" else 1)
    kin, n, kf = wavenumbers(D, W, form)
    o = W.Spectrum1Loop()
    o.set_pk_lin(tab.ka, tab.pa)
    r = o.find_pk_lin(kin, interpol=itp)
    W.ensure_shape("shape", r, (n,))
    if not D.real_mode: D.ensure_all("linear spectrum", n, lambda i: (W.val(r, i), tab.P(kf(i), 1 if itp == "poly" else 0)))
    kk, out = D.filled("k!", n, kf), D.array("out", n)
    D.call("find_pk_lin", kk, out, n, 1 if itp == "poly" else 0)
    D.ensure_all("as the library's", n, lambda i: (W.val(r, i), D.out(out, i)), rtol=1e-12)
    uv = D.real("uv", lo=0., hi=2., pos=False, pick=lambda R_: 0. if R_.rng.random() < 0.2 else R_.rng.uniform(0.1, 2.))
    s = o.calc_running_sigmad2(kin, uvcutoff=W.scalar(uv))
    W.ensure_shape("shape of the dispersion", s, (n,))
    out2 = D.array("out2", n)
    D.call("calc_running_sigmad2", kk, out2, n, uv)
    D.ensure_all("running dispersion", n, lambda i: (W.val(s, i), D.out(out2, i)), rtol=1e-12)
    s = o.calc_running_sigmad2(kin)
    out3 = D.array("out3", n)
    D.call("calc_running_sigmad2", kk, out3, n, tm.div(R(1), R(2)))
    D.ensure_all("running dispersion at the default cutoff", n, lambda i: (W.val(s, i), D.out(out3, i)), rtol=1e-12)

def cut_neville(ex, st, a, node, fn):
    if len(a) != 4: return NotImplemented
    x, tx, ty, n = a
    n = ex.as_int(n)
    extent(ex, st, tx, n, node); extent(ex, st, ty, n, node)
    p, v = ex.norm(st, tx, node)
    q, u = ex.norm(st, ty, node)
    if n.op == "num":
        at = lambda v, o: tuple(ex.simp(st, tm.sel(v.t, tm.add(o, I(i)))) for i in range(n.a[0]))
        return tm.fn(table_fn((at(v, p.off), at(u, q.off), n)).replace("PK", "NEV"), x)
    return tm.fn(table_fn((v.t, p.off, u.t, q.off, n)).replace("PK", "NEV"), x)

@guarded
def tables(D, W, form="f8"):
    """interpolation of tables given by the user"""
    n = D.integer("n", lo=2, hi=5)
    o = W.Spectrum1Loop()
    x = D.real("x", lo=0.5, hi=3.)
    gx = lambda R_, N: [0.5 + i + R_.rng.uniform(0, 0.5) for i in range(N)]
    if form == "i8": gx = lambda R_, N: [float(i + 1) for i in range(N)]
    gy = lambda R_, N: [float(R_.rng.randint(-3, 3)) for _ in range(N)]
    kw = dict(dtype=form if form in ("f4", "i8") else "f8", step=2 if form == "strided" else 1)
    if form == "list":
        vx = [D.real("x%d" % i, pick=lambda D, i=i: i + D.rng.uniform(0.2, 0.8)) for i in range(3)]
        vy = [D.real("y%d" % i) for i in range(3)]
        n = I(3)
        pick = lambda v: (lambda i: v[int(D.v(i))]) if D.real_mode else (lambda i: tm.ite(tm.eq(i, I(0)), v[0], tm.ite(tm.eq(i, I(1)), v[1], v[2])))
        fx, fy = pick(vx), pick(vy)
        tx, ty = [W.scalar(v) for v in vx], [W.scalar(v) for v in vy]
        if not D.real_mode:
            a, b = vx, vy
    else:
        tx, ty = W.array("tx", n, gx, **kw), W.array("ty", n, gy, **kw)
        fx, fy = (lambda i: g("tx", i)), (lambda i: g("ty", i))
    v = o.interpol_poly(W.scalar(x), tx, ty)
    hx, hy = D.filled("hx", n, fx), D.filled("hy", n, fy)
    D.ensure("polynomial", W.val(v), D.call("interpol_poly", x, hx, hy, n), rtol=1e-12)
    v = o.interpol_lin(W.scalar(x), tx, ty)
    x0, x1, y0, y1 = fx(I(0)), fx(n - 1), fy(I(0)), fy(n - 1)
    D.ensure("line", W.val(v), y0 + (x - x0) * (y1 - y0) / (x1 - x0), atol=1e-9)
    if form not in ("list",):
        D.ensure_all("abscissae unchanged", n, lambda i: (W.val(tx, i), fx(i)))
        D.ensure_all("ordinates unchanged", n, lambda i: (W.val(ty, i), fy(i)))

@guarded
def rule(D, W):
    n = D.integer("n", lo=1, hi=9)
    a, b = D.real("a", lo=None), D.real("b", lo=None)
    x, w = W.Spectrum1Loop().nodes_weights_gauss_legendre(W.scalar(a), W.scalar(b), W.scalar(n))
    W.ensure_shape("nodes", x, (n,))
    W.ensure_shape("weights", w, (n,))
    hx, hw = D.array("hx", n), D.array("hw", n)
    D.call("nodes_weights_gauss_legendre", a, b, hx, hw, n)
    D.ensure_all("nodes", n, lambda i: (W.val(x, i), D.out(hx, i)), rtol=1e-12)
    D.ensure_all("weights", n, lambda i: (W.val(w, i), D.out(hw, i)), rtol=1e-12)

ALLC = list(COLUMNS)
AL = ("pre-table",) + MEM
PROP = dict(id="C20", items=[
    Contract(pipeline, [dict(cls=c) for c in ALLC] + [dict(cls=c, form=f) for c in ("Spectrum1Loop", "A1Loop") for f in FORMS[1:] + ("2dT",)] +
             [dict(cls=c, table=t) for c in ("Spectrum1Loop", "B1Loop", "B2Loop") for t in ("f4", "strided")] +
             [dict(cls="Spectrum2Loop", fields_=("theta", "delta")), dict(cls="Spectrum1Loop", fields_=("delta", "theta"))], cuts=CUTS, n=(8, 60), alarm=AL, real_alarm=("ensures", "bounds", "memory", "crash")),
    Contract(rerun, [dict(cls=c, how=h) for c in ("Spectrum1Loop", "A1Loop", "B1Loop") for h in ("f4", "strided", "k", "f4k", "rows", "every other", "twice", "copy")] +
             [dict(cls=c, how=h) for c in ("Spectrum2Loop", "Bias1Loop", "A2Loop", "B2Loop") for h in ("k", "every other", "twice")], cuts=CUTS, n=(6, 40), alarm=AL, real_alarm=("ensures", "bounds", "memory", "crash")),
    Contract(lookup, [dict(form=f) for f in FORMS] + [dict(form="f8", table=t, itp="lin") for t in ("f4", "strided")], alarm=AL, real_alarm=("ensures", "bounds", "memory", "crash")),
    Contract(tables, [dict(form=f) for f in ("f8", "f4", "i8", "strided", "list")], cuts=dict(BASE, interpol_poly=cut_neville), alarm=AL, real_alarm=("ensures", "bounds", "memory", "crash")),
    Contract(rule, alarm=AL, real_alarm=("ensures", "bounds", "memory", "crash"))])
