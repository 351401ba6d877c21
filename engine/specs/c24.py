"""C24: a calculation is that of its own inputs, whatever was set up, copied or run before."""
from .base import *
from pysym import guarded
from prop import Contract, MEM
from driver import Table
import solve, time
from . import c04, c20
from .c04 import Settings, RULES, observe, copies, KER, CALCCUTS
from .c20 import CUTS, COLUMNS, NC, light, expected, compare, PTab, g, ORDER

# ------------------------------------------------------------------ the library: settings and spectrum in force, not history
def history(D, W):
    """the compiled library is left by earlier calls as they come"""
    if not D.real_mode: return
    light(D)
    for r in range(D.rng.randint(0, 4)):
        n = I(D.rng.randint(3, 6))
        t = "h%d" % r
        D.env.pop("tabk" + t, None); D.env.pop("tabpk" + t, None)
        lk = D.array("tabk" + t, n, gen_k)
        lp = D.array("tabpk" + t, n, lambda R_, N: gen_pk(R_, N, "tabk" + t))
        c = D.rng.choice(["rule", "rules", "cut", "lin", "field", "A_2loop", "calculations"])
        if c == "rule":
            D.call("set_precision_gamma3_tree_q", -1., -1., "lin")
            D.call("set_precision_A_2loop_II_III_q", -1., -1., "poly")
            D.call("set_precision_bias_1loop_q", 3, -1., -1., "poly")
        elif c == "cut": D.call("set_running_uvcutoff_" + D.rng.choice(c04.CALC), D.rng.uniform(0.1, 1))
        elif c == "lin": D.call("set_precision_%s_pk_lin" % D.rng.choice(c04.CALC), D.rng.choice(["lin", "poly", "none"]))
        elif c == "field": D.call("set_spectra_B", D.rng.choice(["delta", "theta"]), D.rng.choice(["delta", "theta"]), n, lk, lp)
        else: observe(D, types_tab(D, n), lk, lp, t, c)
class types_tab(object):
    def __init__(self, D, n): self.n = n

class Ranges(Settings):
    """settings with some ranges left to that of the spectrum"""
    def __init__(self, D, turn, all_=False):
        Settings.__init__(self, D, turn)
        m = tm.num(-1)
        for i, r in enumerate(RULES):
            n, lo, hi, it = self.rule[r]
            if all_ or (i + turn) % 3 == 0: self.rule[r] = (n, m, m, it)
            elif (i + turn) % 3 == 1: self.rule[r] = (n, m, hi, it)

@guarded
def settled(D, W, turn, what):
    """every calculation with one spectrum, then with another: the second is what it is in a program that does nothing else, where the
    settings were made in the opposite order"""
    history(D, W)
    t1, t2 = Tab(D, nlo=3, nhi=6, name="1"), Tab(D, nlo=3, nhi=6, name="2")
    S = Ranges(D, turn)
    S.apply()
    for i, t in ((1, t1), (2, t2)):
        lk, lp = copies(D, t, "1%d" % i)
        one = observe(D, t, lk, lp, "1%d" % i, what)
    with D.startup():
        for d in ("rule", "pk", "uv"): setattr(S, d, dict(reversed(list(getattr(S, d).items()))))
        S.apply()
        lk, lp = copies(D, t2, "2")
        two = observe(D, t2, lk, lp, "2", what)
    for (nm, a), (_, b) in zip(one, two): D.ensure(nm, a, b, rtol=1e-9)

# ------------------------------------------------------------------ field names
WORDS = ("delta", "theta")
def samename(ex, st, t, node):
    """the table, under the name of an earlier one with the same content"""
    (pk, vk), (pp, vp) = ex.norm(st, t.f["k"], node), ex.norm(st, t.f["pk"], node)
    nm = tablename(ex, st, t, node)
    known = ex.__dict__.setdefault("tables", {})
    if nm in known: return known[nm][0]
    i = tm.fresh("i", "I")
    s2 = st.copy()
    s2.facts = s2.facts + (tm.le(IZERO, i), tm.lt(i, t.f["nk"]))
    at = lambda v, p: ex.simp(s2, tm.sel(v.t, tm.add(p.off, i)))
    new = (at(vk, pk), at(vp, pp), t.f["nk"])
    for nm2, (canon, old, j) in list(known.items()):
        if canon != nm2: continue
        try:
            for x, y in zip(new, old):
                pr = solve.EqProver(s2.ctx(), pos=(), deadline=time.time() + 10)
                pr.prove(x, tm.subst(y, {j: i}))
            known[nm] = (nm2, new, i)
            return nm2
        except solve.Undecided: pass
    known[nm] = (nm, new, i)
    return nm
def cut_B(ex, st, a, node, fn):
    """B at one wavenumber is that of the two spectra it holds"""
    if len(a) != 2: return NotImplemented
    try: t = [ex.root(st, ex.gobj(nm, fn.file)) for nm in ("pk_dt", "pk_tt")]
    except Exception: return NotImplemented
    if not all(isinstance(x, St) for x in t): return NotImplemented
    for x in t:
        for f in ("k", "pk"): extent(ex, st, x.f[f], x.f["nk"], node)
    nm = "~".join(samename(ex, st, x, node) for x in t)
    for i in range(12): ex.store(st, Ptr(a[1].obj, a[1].path, tm.add(a[1].off, I(i))), tm.fn("BB%d~%s" % (i, nm), a[0]), node)
    return None

def terms(D, c, tag, nk, kf):
    n = c04.WIDTH.get(c, 1)
    F = c04.COLS[c]
    kk = D.filled("kk!" + tag, nk, kf)
    cols = [D.array("%s%d!%s" % (c, i, tag), tm.mul(nk, I(n)) if i == F - 1 else nk) for i in range(F)]
    D.call("set_terms_" + c, nk, kk, *cols)
    return cols, [1] * (F - 1) + [n]

def equal(D, nk, cols, cols2, w):
    for j, (a, b, n) in enumerate(zip(cols, cols2, w)):
        for i in range(n):
            D.ensure_all("column %d[%d]" % (j, i), nk, lambda x: (D.out(a, tm.add(tm.mul(x, I(n)), I(i))), D.out(b, tm.add(tm.mul(x, I(n)), I(i)))), rtol=1e-9)

@guarded
def fields(D, W, c, a, b, first):
    """the fields are those of the call, not of the one before"""
    history(D, W); light(D)
    tab = Tab(D, nlo=3, nhi=6)
    nk = D.integer("nk", lo=1, hi=3)
    K = D.array("K", nk, lambda R_, N: [R_.rng.uniform(0.05, 0.5) for _ in range(N)])
    S = Settings(D)
    S.apply()
    lk, lp = copies(D, tab, "1")
    D.call("set_pk_lin", lk, lp, tab.n)
    terms(D, c, "0", nk, lambda i: K[i])
    D.call("run_terms_" + c, first[0], first[1], 1)
    cols, w = terms(D, c, "1", nk, lambda i: K[i])
    D.call("run_terms_" + c, a, b, 1)
    with D.startup():
        S.apply()
        lk, lp = copies(D, tab, "2")
        D.call("set_pk_lin", lk, lp, tab.n)
        cols2, w = terms(D, c, "2", nk, lambda i: K[i])
        D.call("run_terms_" + c, a, b, 1)
    equal(D, nk, cols, cols2, w)
    if D.real_mode: return
    # the fields themselves
    F = {"delta": 0, "theta": 1}
    i = tm.fresh("i", "I")
    place = {"spectrum_1loop": (2, 3), "spectrum_2loop": (2, 4)}[c]
    for p, x in zip(place, (a, b)): D.ensure_all("field " + x, nk, lambda i: (D.out(cols[p], i), tm.fn("G1one", I(F[x]), K[i])))

@guarded
def spectra(D, W, calls):
    """the B calculation works with the spectra last given for its own pairs of fields"""
    history(D, W); light(D)
    tab = Tab(D, nlo=3, nhi=6)
    nk = D.integer("nk", lo=1, hi=3)
    K = D.array("K", nk, lambda R_, N: [R_.rng.uniform(0.05, 0.5) for _ in range(N)])
    S = Settings(D)
    S.apply()
    lk, lp = copies(D, tab, "1")
    D.call("set_pk_lin", lk, lp, tab.n)
    last = {}
    for j, (a, b) in enumerate(calls):
        t = Tab(D, nlo=3, nhi=6, name="s%d" % j)
        D.call("set_spectra_B", a, b, t.n, t.k, t.pk)
        if "theta" in (a, b): last["tt" if a == b else "dt"] = t
    cols, w = terms(D, "B", "1", nk, lambda i: K[i])
    D.call("run_terms_B", 2)
    with D.startup():
        S.apply()
        lk, lp = copies(D, tab, "2")
        D.call("set_pk_lin", lk, lp, tab.n)
        for x, ab in (("tt", ("theta", "theta")), ("dt", ("delta", "theta"))):
            k, p = D.filled("ck" + x, last[x].n, lambda i: last[x].k[i]), D.filled("cp" + x, last[x].n, lambda i: last[x].pk[i])
            D.call("set_spectra_B", ab[0], ab[1], last[x].n, k, p)
        cols2, w = terms(D, "B", "2", nk, lambda i: K[i])
        D.call("run_terms_B", 2)
    equal(D, nk, cols, cols2, w)
    if D.real_mode: return
    nm = "~".join(last[x].name for x in ("dt", "tt"))
    D.ensure_all("spectra used", nk, lambda i: (D.out(cols[2], tm.mul(i, I(9))), tm.fn("BB0~" + nm, K[i])))

@guarded
def no_spectra(D, W):
    """without spectra the B calculation makes the one-loop ones of the linear spectrum in force, at every run"""
    tabs = [Tab(D, nlo=3, nhi=6, name=x) for x in "12"]
    nk = D.integer("nk", lo=1, hi=3)
    K = D.array("K", nk, lambda R_, N: [R_.rng.uniform(0.05, 0.5) for _ in range(N)])
    def run(t, tag):
        lk, lp = copies(D, t, tag)
        D.call("set_pk_lin", lk, lp, t.n)
        cols, w = terms(D, "B", tag, nk, lambda i: K[i])
        D.call("run_terms_B", 2)
        return cols, w
    with D.startup():
        light(D)
        run(tabs[0], "a")
        one, w = run(tabs[1], "b")
        if D.real_mode: one = [[D.out(c, I(i)) for i in range(int(D.v(nk)) * n)] for c, n in zip(one, w)]
    with D.startup():
        light(D)
        t = tabs[1]
        lk, lp = copies(D, t, "c")
        D.call("set_pk_lin", lk, lp, t.n)
        sp = {}
        for a in WORDS:
            sp[a] = D.array("pk" + a, t.n)
            D.call("set_spectrum_1loop", t.n, lk, sp[a])
            D.call("run_spectrum_1loop", a, "theta", 2)
        for a in WORDS: D.call("set_spectra_B", a, "theta", t.n, lk, sp[a])
        two, w = terms(D, "B", "d", nk, lambda i: K[i])
        D.call("run_terms_B", 2)
    if D.real_mode:
        for j, (c, d) in enumerate(zip(one, two)):
            for i, x in enumerate(c): D.ensure("column %d[%d]" % (j, i), x, D.out(d, I(i)), rtol=1e-9)
    else: equal(D, nk, one, two, w)

# ------------------------------------------------------------------ objects
def thing(D, W, cls, x, n):
    tab = PTab(D, W, nhi=6, name=x)
    kin = W.array("kin" + x, n, lambda R_, N: sorted(R_.rng.uniform(0.02, 0.9) for _ in range(N)))
    return tab, kin, (lambda i: g("kin" + x, i))
def start(W, cls, tab, kin):
    o = getattr(W, cls)()
    o.set_pk_lin(tab.ka, tab.pa)
    o.set_terms(kin)
    return o
def run(cls, o, f=("delta", "theta")):
    if cls.startswith("Spectrum"): o.run_terms(a=f[0], b=f[1], nthreads=2)
    else: o.run_terms(nthreads=2)

@guarded
def objects(D, W, one, two, order):
    """two objects, each with its own spectrum and wavenumbers, set up and run in any order"""
    history(D, W); light(D)
    n1, n2 = D.integer("n1", lo=1, hi=4), D.integer("n2", lo=1, hi=4)
    A = (one,) + thing(D, W, one, "1", n1)
    B = (two,) + thing(D, W, two, "2", n2)
    o, O = {}, dict(a=A, b=B)
    for step in order.split():
        x, what = step[0], step[1:]
        cls, tab, kin, kf = O[x]
        if what == "new": o[x] = getattr(W, cls)()
        elif what == "lin": o[x].set_pk_lin(tab.ka, tab.pa)
        elif what == "terms": o[x].set_terms(kin)
        elif what == "run": run(cls, o[x])
        elif what == "copy": o[x + "c"] = o[x].copy()
        elif what == "deep": o[x + "c"] = o[x].deepcopy()
        elif what == "other":                               # the copy is put to another use
            t, k, _ = O["b"][1:]
            o[x + "c"].set_pk_lin(t.ka, t.pa)
            o[x + "c"].set_terms(k)
            run(cls, o[x + "c"], ("theta", "theta"))
        elif what == "again": run(cls, o[x + "c"], ("theta", "theta"))
        elif what == "pad": o[x + "c"].pad_k(O["b"][2])
        else: raise ValueError(what)
    expected.fields = ("delta", "theta")
    for x, n in (("a", n1), ("b", n2)):
        if x + "run" not in order.split(): continue
        cls, tab, kin, kf = O[x]
        kk, cols, sp, lk, lp = expected(D, cls, tab, kf, n, 2, x)
        compare(D, W, cls, o[x], n, kf, cols, x + ": ")
        D.ensure_all(x + ": linear spectrum unchanged", tab.n, lambda i: (W.val(tab.pa, i), tab.pk[i]))
        D.ensure_all(x + ": wavenumbers given unchanged", n, lambda i: (W.val(kin, i), kf(i)))
        for f, v in (("k", tab.k), ("pk", tab.pk)): D.ensure_all(x + ": own spectrum " + f, tab.n, lambda i: (W.val(o[x].spectrum_lin[f], i), v[i]))

class Other(object):
    """a spectrum as it has become"""
    def __init__(self, n, k, pk): self.n, self.k, self.pk = n, k, pk
class Fun(object):
    def __init__(self, f): self.f = f
    def __getitem__(self, i): return self.f(I(i) if isinstance(i, int) else i)

@guarded
def revised(D, W, cls, how):
    """an object that has run, whose spectrum is then changed or put in place of by another: the next run and the next lookup are of what it has become"""
    history(D, W); light(D)
    n = D.integer("n1", lo=1, hi=3)
    tab, kin, kf = thing(D, W, cls, "1", n)
    t2 = PTab(D, W, nhi=6, name="2")
    o = start(W, cls, tab, kin)
    run(cls, o)
    o.find_pk_lin(kin)
    two = Other(tab.n, tab.k, Fun(lambda i: tab.pk[i] * 2))
    if how == "in place": o.spectrum_lin["pk"] *= 2
    elif how == "element":
        o.spectrum_lin["pk"][1] = 3.
        two.pk = Fun(lambda i: tm.ite(tm.eq(i, I(1)), tm.num(3), tab.pk[i]))
    elif how == "column": o.spectrum_lin["pk"] = o.spectrum_lin["pk"] * 2
    else:
        two = Other(t2.n, t2.k, t2.pk)
        if how == "columns": o.spectrum_lin["k"], o.spectrum_lin["pk"] = t2.ka, t2.pa
        elif how == "given again": o.set_pk_lin(t2.ka, t2.pa)
        elif how == "another's":
            x = W.SpectrumLin()
            x["k"], x["pk"] = t2.ka, t2.pa
            o.set_spectrum_lin(x)
    r = o.find_pk_lin(kin)
    run(cls, o)
    expected.fields = ("delta", "theta")
    kk, cols, sp, lk, lp = expected(D, cls, two, kf, n, 2, "x")
    compare(D, W, cls, o, n, kf, cols)
    out = D.array("out", n)
    D.call("find_pk_lin", kk, out, n, 1)
    D.ensure_all("lookup", n, lambda i: (W.val(r, i), D.out(out, i)), rtol=1e-12)

# ------------------------------------------------------------------ library-wide settings
MODES = ("quiet", "info", "debug")
@guarded
def verbosity(D, W, mode, how):
    """what is asked for stays until something else is asked for"""
    n = D.integer("n1", lo=1, hi=3)
    tab, kin, kf = thing(D, W, "Spectrum1Loop", "1", n)
    light(D)
    first = W.Spectrum1Loop()
    if how == "python": first.set_verbosity(mode)
    else: D.call("set_verbosity", mode)
    v = D.glob("verbose")
    D.ensure("the mode asked for", v, I(MODES.index(mode)))
    if how == "python":
        for cls in COLUMNS:
            o = start(W, cls, tab, kin)
            D.ensure("after setting up a " + cls, D.glob("verbose"), v)
            o2 = o.copy()
            o3 = o.deepcopy()
            D.ensure("after copying a " + cls, D.glob("verbose"), v)
            if cls != "B2Loop" or not D.real_mode:
                run(cls, o)
                D.ensure("after running a " + cls, D.glob("verbose"), v)
            o.find_pk_lin(kin)
            o.nan_to_zero()
            D.ensure("after using a " + cls, D.glob("verbose"), v)
        first.set_precision("all", n=3, min=0.01, max=1., interpol="lin")
        first.set_running_uvcutoff("all", uvcutoff=0.4)
        D.ensure("after changing other settings", D.glob("verbose"), v)
    else:
        lk, lp = copies(D, tab, "1")
        D.call("set_pk_lin", lk, lp, tab.n)
        D.ensure("after setting a spectrum", D.glob("verbose"), v)
        D.call("set_verbosity", "loud")
        D.ensure("another word", D.glob("verbose"), v)
        for c in c04.COLS:
            terms(D, c, c, n, kf)
            if c == "B":
                for a in WORDS: D.call("set_spectra_B", a, "theta", tab.n, lk, lp)
            D.call("run_terms_" + c, *((("delta", "theta") if c.startswith("spectrum") else ()) + (1,)))
            D.ensure("after " + c, D.glob("verbose"), v)

@guarded
def settings(D, W, what, turn):
    """objects come and go; the settings stay"""
    tab, other = c04.table(D), PTab(D, W, nhi=6, name="o")
    n = D.integer("n1", lo=1, hi=3)
    kin = W.array("kin", n, lambda R_, N: sorted(R_.rng.uniform(0.02, 0.9) for _ in range(N)))
    S = Settings(D, turn)
    def first():
        S.apply()
        for cls in COLUMNS:
            o = start(W, cls, other, kin)
            if what == "calculations" and cls != "B2Loop": run(cls, o)
            o.copy().set_terms(kin)
            c = o.deepcopy()
            c.set_spectrum_lin(o.spectrum_lin)
            c.find_pk_lin(kin)
            c.set_verbosity("quiet")
    c04.compare(D, tab, first, S.apply, S, what)

PAIRS = [("Spectrum1Loop", "Spectrum1Loop"), ("Spectrum1Loop", "A1Loop"), ("Spectrum2Loop", "Spectrum1Loop"), ("Spectrum2Loop", "Spectrum2Loop"), ("Bias1Loop", "Bias1Loop"),
         ("Bias1Loop", "Spectrum2Loop"), ("A1Loop", "A2Loop"), ("A1Loop", "A1Loop"), ("A2Loop", "A1Loop"), ("A2Loop", "A2Loop"), ("B1Loop", "B1Loop"), ("B1Loop", "B2Loop"), ("B2Loop", "B1Loop"), ("B2Loop", "Spectrum1Loop"),
         ("Spectrum1Loop", "B2Loop")]
ORDERS = ["anew alin aterms bnew blin bterms arun brun", "anew bnew alin blin bterms aterms brun arun", "anew alin aterms arun bnew blin bterms brun", "anew bnew aterms bterms blin alin arun brun arun"]
COPY = ["anew alin aterms acopy aother arun", "anew alin aterms arun acopy aother", "anew alin aterms arun adeep aagain", "anew alin aterms adeep aother arun", "anew alin aterms arun adeep apad", "anew alin aterms arun acopy apad"]
C24CUTS = dict(CUTS, calc_pk_B=cut_B)
C24CALC = dict(CALCCUTS)
AL = MEM
RA = ("ensures", "bounds", "memory", "crash")
PROP = dict(id="C24", items=[
    Contract(settled, [dict(turn=t, what="rules") for t in range(3)], cuts=KER, n=(2, 20)),
    Contract(settled, [dict(turn=t, what="A_2loop") for t in range(3)], cuts=KER, n=(1, 6), name="settled_A_2loop"),
    Contract(settled, [dict(turn=t, what="calculations") for t in range(2)], cuts=CALCCUTS, n=(1, 5), name="settled_calculations"),
    Contract(fields, [dict(c=c, a=a, b=b, first=f) for c in ("spectrum_1loop", "spectrum_2loop") for a in WORDS for b in WORDS for f in (("delta", "theta"), ("theta", "delta"))], cuts=CUTS, n=(2, 10)),
    Contract(spectra, [dict(calls=x) for x in (
        (("delta", "theta"), ("theta", "theta")), (("theta", "delta"), ("theta", "theta")), (("theta", "theta"), ("theta", "delta"), ("delta", "delta")),
        (("delta", "delta"), ("theta", "theta"), ("delta", "theta"), ("theta", "theta")), (("delta", "theta"), ("theta", "delta"), ("theta", "theta"), ("delta", "delta")))], cuts=C24CUTS, n=(3, 20)),
    Contract(no_spectra, cuts=C24CUTS, n=(3, 20)),
    Contract(objects, [dict(one=a, two=b, order=o) for i, (a, b) in enumerate(PAIRS) for o in (ORDERS if i < 2 else [ORDERS[i % 4], ORDERS[(i + 1) % 4]])] +
             [dict(one=a, two=a, order=o) for a in COLUMNS for o in COPY], cuts=C24CUTS, n=(2, 20), alarm=AL, real_alarm=RA),
    Contract(revised, [dict(cls=c, how=h) for c in ("Spectrum1Loop", "A1Loop", "B1Loop") for h in ("in place", "element", "column", "columns", "given again", "another's")] +
             [dict(cls=c, how="in place") for c in ("Spectrum2Loop", "Bias1Loop", "A2Loop", "B2Loop")], cuts=C24CUTS, n=(2, 20), alarm=AL, real_alarm=RA),
    Contract(verbosity, [dict(mode=m, how=h) for m in MODES for h in ("python", "C")], cuts=CUTS, n=(2, 10)),
    Contract(settings, [dict(what="rules", turn=t) for t in range(2)], cuts=KER, n=(1, 6)),
    Contract(settings, [dict(what="calculations", turn=0)], cuts=CALCCUTS, n=(1, 6), name="settings_calculations")])
