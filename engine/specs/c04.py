"""C04: what the settings are after any call that changes them.

The settings are seen through the calculations they govern.  In the library as it was left by earlier calls every elementary
setting holds a value of its own; the calls under test follow; then every calculation is evaluated.  A second copy of the library, as
a program finds it, is given the settings expected from the documentation, one elementary setting at a time (nothing at all for those
expected at their defaults), and evaluates the same calculations: the values agree for all settings, tables and wavenumbers."""
from .base import *
from pysym import guarded
from prop import Contract, MEM
from driver import FnRef, Table
from .c11 import OUT
from .c13 import cut_I, cut_II, realfns
from .c20 import CUTS as WIRE

QN = ["gamma1_1loop", "gamma1_2loop", "gamma2_tree", "gamma2d_1loop", "gamma2t_1loop", "bias_1loop", "A_1loop", "A_2loop_I", "B"]
QR = ["gamma3_tree", "A_2loop_II_III"]
MU = ["gamma2_tree", "bias_1loop", "A_1loop", "A_2loop_I", "B"]
RULES = [x + "_q" for x in QN + QR] + [x + "_mu" for x in MU]
CALC = ["spectrum_1loop", "spectrum_2loop", "bispectrum_1loop", "bias_1loop", "A_1loop", "A_2loop", "B"]
kind = lambda r: "m" if r.endswith("_mu") else "r" if r[:-2] in QR else "q"

# what the names of the package stand for
GROUP = {
    "gamma2_1loop_q": ["gamma2d_1loop_q", "gamma2t_1loop_q"],
    "spectrum_1loop_q": ["gamma1_1loop_q", "gamma2_tree_q"],
    "spectrum_2loop_q": ["gamma1_1loop_q", "gamma1_2loop_q", "gamma2_tree_q", "gamma2d_1loop_q", "gamma2t_1loop_q", "gamma3_tree_q"],
    "A_2loop_q": ["A_2loop_I_q", "A_2loop_II_III_q"],
    "all_q": [x + "_q" for x in QN + QR],
    "all_mu": [x + "_mu" for x in MU],
    "all": RULES}

def three(D, tag, i):
    """a rule of its own: number of nodes, range, interpolation"""
    n = D.integer("n" + tag, lo=1, hi=3)
    lo = D.real("lo" + tag, lo=5e-3, hi=0.3)
    hi = D.real("hi" + tag, lo=5e-3, hi=5., pick=lambda R_: R_.env["lo" + tag] * (1 + R_.rng.choice([0, 1e-4, 9 * R_.rng.random(), 9 * R_.rng.random()])))
    D.require(tm.le(lo, hi))
    return n, lo, hi
def invalid(D, tag):
    a, b = D.real("bad" + tag, lo=1., hi=2.), D.real("worse" + tag, lo=-1., hi=0.5, pos=False)
    D.require(tm.lt(b, a))
    return a, b
def put(D, r, v):
    k = kind(r)
    if k == "q": D.call("set_precision_" + r, *v)
    elif k == "r": D.call("set_precision_" + r, *v[1:])
    else: D.call("set_precision_" + r, v[0], v[3])

VARIANTS = ["n", "range", "interpolation", "all", "nothing", "untouched"]
def change(v, old, new, bad, word):
    """(arguments given, settings expected afterwards; None for the defaults)"""
    n0, lo0, hi0, i0 = old
    n, lo, hi = new
    zero = I(0)
    if v == "n": return (n, bad[0], bad[1], word), (n, lo0, hi0, i0)
    if v == "range": return (zero, lo, hi, word), (n0, lo, hi, i0)
    other = "poly" if i0 == "lin" else "lin"
    if v == "interpolation": return (zero, bad[0], bad[1], other), (n0, lo0, hi0, other)
    if v == "all": return (n, lo, hi, other), (n, lo, hi, other)
    if v == "nothing": return (zero, bad[0], bad[1], word), None
def applicable(v, k):
    """the same request to a rule that has no such field asks for nothing"""
    if k == "m" and v == "range": return "nothing"
    if k == "r" and v == "n": return "nothing"
    return v

# ------------------------------------------------------------------ what shows the settings
def observe(D, tab, lk, lp, tag, what):
    out = []
    D.call("set_pk_lin", lk, lp, tab.n)
    k = D.real("k", lo=0.05, hi=0.5)
    if "rules" in what:
        D.call("init_gamma1_1loop")
        for a in (0, 1): out.append(("gamma1_1loop %d" % a, D.call("gamma1_1loop", a, k)))
        D.call("init_gamma1_2loop")
        o = [D.array("o1%d!%s" % (i, tag), 1) for i in range(4)]
        D.call("calc_pk_gamma1_2loop", 0, 1, k, *o)
        out += [("gamma1_2loop %d" % i, D.out(h, 0)) for i, h in enumerate(o)]
        D.call("free_gamma1_2loop")
        D.call("free_gamma1_1loop")
        D.call("init_gamma2_tree")
        o = D.array("o2!%s" % tag, 1)
        D.call("calc_pk_gamma2_tree", 0, 1, k, o)
        out.append(("gamma2_tree", D.out(o, 0)))
        D.call("free_gamma2_tree")
        k2 = D.real("k2", lo=0.05, hi=0.5)
        k3 = D.real("k3", lo=1e-3, hi=1., pick=lambda R_: abs(R_.env["k"] - R_.env["k2"]) + R_.rng.uniform(0.05, 0.95) * 2 * min(R_.env["k"], R_.env["k2"]))
        for f in "dt":
            D.call("init_gamma2%s_1loop" % f)
            out.append(("gamma2%s_1loop" % f, D.call("gamma2%s_1loop" % f, k, k2, k3)))
            D.call("free_gamma2%s_1loop" % f)
        D.call("init_gamma3_tree")
        o = D.array("o3!%s" % tag, 1)
        D.call("calc_pk_gamma3_tree", 0, 1, k, o)
        out.append(("gamma3_tree", D.out(o, 0)))
        D.call("free_gamma3_tree")
        D.call("init_bias_1loop")
        out.append(("bias", D.call("calc_pk_bias_1loop", 0, k, FnRef("kernel_b2"), 0)))
        D.call("free_bias_1loop")
        D.call("init_A_1loop")
        o = D.array("o4!%s" % tag, 5)
        D.call("calc_pk_A_1loop", k, o)
        out += [("A_1loop %d" % i, D.out(o, i)) for i in (0, 4)]
        D.call("free_A_1loop")
        D.call("init_B", Table(tab.n, lk, lp), Table(tab.n, lk, lp))
        o = D.array("o5!%s" % tag, 12)
        D.call("calc_pk_B", k, o)
        out += [("B %d" % i, D.out(o, i)) for i in (0, 8)]
        D.call("free_B")
    if "A_2loop" in what:
        D.call("init_A_2loop_I")
        o = D.array("o6!%s" % tag, 12)
        D.call("calc_pk_A_2loop_I", k, o)
        out += [("A_2loop_I %d" % i, D.out(o, i)) for i in (0, 4)]
        D.call("free_A_2loop_I")
        D.call("init_A_2loop_II_III")
        o = D.array("o6!%s" % tag, 12)
        D.call("calc_pk_A_2loop_II_III", k, o)
        out += [("A_2loop_II_III %d" % i, D.out(o, i)) for i in (0, 4)]
        D.call("free_A_2loop_II_III")
    if "calculations" in what:
        nk = I(1)
        kk = D.filled("kk!" + tag, 1, lambda i: k)
        for c, F in COLS.items():
            n = WIDTH.get(c, 1)
            cols = [D.array("%s%d!%s" % (c, i, tag), n if i == len(range(F)) - 1 else 1) for i in range(F)]
            D.call("set_terms_" + c, nk, kk, *cols)
            if c == "B":
                D.call("set_spectra_B", "delta", "theta", tab.n, lk, lp)
                D.call("set_spectra_B", "theta", "theta", tab.n, lk, lp)
            D.call("run_terms_" + c, *((("delta", "theta") if c.startswith("spectrum") else ()) + (1,)))
            out += [(c + " linear spectrum", D.out(cols[0], 0)), (c + " dispersion", D.out(cols[1], 0))]
        p, kp = D.real("p", lo=0.02, hi=0.5), D.real("kp", lo=0.04, hi=0.5)
        o = [D.array("b%d!%s" % (i, tag), 1) for i in range(8)]
        D.call("init_bispectrum_1loop_I")
        D.call("bispectrum_1loop_I", k, p, kp, *o)
        out += [("bispectrum %s" % OUT[i][0], D.out(o[i], 0)) for i in range(8)]
        D.call("free_bispectrum_1loop_I")
        D.call("init_A_2loop_II_III")
        o = D.array("o8!%s" % tag, 12)
        D.call("calc_pk_A_2loop_II_III", k, o)
        out += [("A_2loop_II_III", D.out(o, 0))]
    return out
# number of output columns of the calculations, and elements per wavenumber in the last one
COLS = dict(spectrum_1loop=5, spectrum_2loop=10, bias_1loop=10, A_1loop=3, A_2loop=3, B=3)
WIDTH = dict(A_1loop=5, A_2loop=5, B=9)

def copies(D, tab, tag):
    return D.filled("lk!" + tag, tab.n, lambda i: tab.k[i]), D.filled("lp!" + tag, tab.n, lambda i: tab.pk[i])

def compare(D, tab, first, second, expected, what):
    """first: what was done; the settings expected afterwards are given to a new copy, one at a time"""
    lk, lp = copies(D, tab, "1")
    first()
    one = observe(D, tab, lk, lp, "1", what)
    with D.startup():
        lk, lp = copies(D, tab, "2")
        second()
        two = observe(D, tab, lk, lp, "2", what)
    for (nm, a), (nm2, b) in zip(one, two): D.ensure(nm, a, b, rtol=1e-9)
    if "calculations" in what:
        # the settings show: the linear spectrum and the dispersion of every calculation
        k = D.real("k", lo=0.05, hi=0.5)
        one = dict(one)
        for c in COLS:
            D.ensure(c + " linear spectrum with its interpolation", one[c + " linear spectrum"], tab.P(k, INTERP[expected.pk[c] or "poly"]))
            D.ensure(c + " dispersion with its cutoff", one[c + " dispersion"], tab.sig(k, expected.uv[c] if expected.uv[c] is not None else R("0.5")))

def table(D):
    return Tab(D, nlo=3, nhi=9)

class Settings(object):
    """every elementary setting at a value of its own"""
    def __init__(self, D, word=0):
        self.D = D
        self.rule = {}
        for i, r in enumerate(RULES): self.rule[r] = three(D, "_" + r, i) + (("lin", "poly")[(i + word) % 2],)
        self.pk = {c: ("lin", "poly")[(i + word) % 2] for i, c in enumerate(CALC)}
        self.uv = {c: D.real("uv_" + c, lo=0.05, hi=2.) for c in CALC}
    def none(self):
        for d in (self.rule, self.pk, self.uv):
            for x in d: d[x] = None
        return self
    def apply(self):
        D = self.D
        for r, v in self.rule.items():
            if v is not None: put(D, r, v)
        for c, v in self.pk.items():
            if v is not None: D.call("set_precision_%s_pk_lin" % c, v)
        for c, v in self.uv.items():
            if v is not None: D.call("set_running_uvcutoff_" + c, v)

def py(W, r, a):
    """the same request through the package"""
    W.Spectrum1Loop().set_precision(r, **{k: (W.scalar(x) if not isinstance(x, str) else x) for k, x in zip(("n", "min", "max", "interpol"), a)})

@guarded
def elementary(D, W, turn, how, what="rules"):
    """one request per setting, of a different kind for each: only what is asked for changes, and only there"""
    tab = table(D)
    S = Settings(D, turn)
    bad = invalid(D, "")
    req, exp = {}, dict(S.rule)
    for i, r in enumerate(RULES):
        v = applicable(VARIANTS[(i + turn) % 6], kind(r))
        if v == "untouched": continue
        req[r], exp[r] = change(v, S.rule[r], three(D, "2_" + r, i), bad, ("no", "test", "")[i % 3])
        if kind(r) == "m" and exp[r] is not None: exp[r] = (exp[r][0],) + S.rule[r][1:3] + (exp[r][3],)
    def first():
        S.apply()
        for r, a in req.items():
            if how == "python": py(W, r, a)
            else: put(D, r, a)
    T = Settings(D, turn)
    T.rule = exp
    compare(D, tab, first, T.apply, T, what)

@guarded
def group(D, W, name, how, what="rules"):
    """a group of settings is each of its members"""
    tab = table(D)
    S = Settings(D)
    bad = invalid(D, "")
    new = three(D, "new", 0)
    a = {"all": new + ("lin",), "nothing": (I(0),) + bad + ("test",), "n": (new[0],) + bad + ("test",), "range": (I(0),) + new[1:] + ("test",)}[how]
    T = Settings(D)
    for r in GROUP[name]:
        n0, lo0, hi0, i0 = S.rule[r]
        k = kind(r)
        n, lo, hi, it = (n0, lo0, hi0, i0)
        if how == "nothing" or (how == "n" and k == "r") or (how == "range" and k == "m"): T.rule[r] = None; continue
        if how in ("all", "n") and k != "r": n = new[0]
        if how in ("all", "range") and k != "m": lo, hi = new[1:]
        if how == "all": it = "lin"
        T.rule[r] = (n, lo, hi, it)
    def first():
        S.apply()
        py(W, name, a)
    compare(D, tab, first, T.apply, T, what)

@guarded
def cleared(D, W, what="rules", twice=False):
    """clear() puts everything back as at the start"""
    tab = table(D)
    S = Settings(D)
    def first():
        if twice: W.Spectrum1Loop().clear()
        S.apply()
        W.Spectrum1Loop().clear()
    compare(D, tab, first, lambda: None, Settings(D).none(), what)

@guarded
def linear(D, W, turn, how):
    """interpolation of the linear spectrum: a valid name is taken, any other changes nothing; a group is each of its members"""
    tab = table(D)
    S, T = Settings(D, turn), Settings(D, turn)
    words = ("lin", "poly", "test")
    def first():
        S.apply()
        for i, c in enumerate(CALC):
            w = words[(i + turn) % 3]
            if how == "C": D.call("set_precision_%s_pk_lin" % c, w)
            elif how == "python": W.Spectrum1Loop().set_precision(c + "_pk_lin", interpol=w)
        if how not in ("C", "python"): W.Spectrum1Loop().set_precision("all_pklin", interpol=how)
    for i, c in enumerate(CALC):
        w = words[(i + turn) % 3] if how in ("C", "python") else how
        if w != "test": T.pk[c] = w
    compare(D, tab, first, T.apply, T, "calculations")

@guarded
def cutoffs(D, W, turn, how):
    """each cutoff on its own; "all" is each of them"""
    tab = table(D)
    S, T = Settings(D, turn), Settings(D, turn)
    new = {c: D.real("uv2_" + c, lo=0.05, hi=2.) for c in CALC}
    one = D.real("uv2", lo=0.05, hi=2.)
    some = [c for i, c in enumerate(CALC) if (i + turn) % 2 == 0]
    def first():
        S.apply()
        if how == "all": W.Spectrum1Loop().set_running_uvcutoff("all", uvcutoff=W.scalar(one))
        elif how == "all default": W.Spectrum1Loop().set_running_uvcutoff()
        elif how == "default": W.Spectrum1Loop().set_running_uvcutoff(some[0])
        else:
            for c in some:
                if how == "C": D.call("set_running_uvcutoff_" + c, new[c])
                else: W.Spectrum1Loop().set_running_uvcutoff(c, uvcutoff=W.scalar(new[c]))
    if how == "all": T.uv = {c: one for c in CALC}
    elif how == "all default": T.uv = {c: None for c in CALC}
    elif how == "default": T.uv[some[0]] = None
    else:
        for c in some: T.uv[c] = new[c]
    compare(D, tab, first, T.apply, T, "calculations")

KER = dict(BASE, kernel_gamma2d=opaque("KG2D", 4), kernel_gamma2t=opaque("KG2T", 4), bispectrum_1loop_I=cut_I, bispectrum_1loop_II_III=cut_II)
for _n in ("gamma2d_1loop", "gamma2t_1loop"): KER.pop(_n)
CALCCUTS = dict(WIRE, bispectrum_1loop_II_III=cut_II)
CALCCUTS.pop("calc_pk_A_2loop_II_III")

HOW = ["C", "python"]
TURN = [dict(turn=t, how=HOW[t % 2]) for t in range(6)] + [dict(turn=t, how=HOW[(t + 1) % 2]) for t in range(6)]
GR = [dict(name=g, how=h) for g in GROUP for h in ("all", "nothing")] + [dict(name=g, how=h) for g in ("all", "A_2loop_q", "spectrum_2loop_q") for h in ("n", "range")]
PROP = dict(id="C04", items=[
    Contract(elementary, [dict(c, what="rules") for c in TURN], cuts=KER, n=(3, 20)),
    Contract(elementary, [dict(c, what="A_2loop") for c in TURN], cuts=KER, n=(1, 6), name="elementary_A_2loop"),
    Contract(group, [dict(c, what="rules") for c in GR], cuts=KER, n=(2, 20)),
    Contract(group, [dict(c, what="A_2loop") for c in GR], cuts=KER, n=(1, 6), name="group_A_2loop"),
    Contract(cleared, [dict(what="rules", twice=t) for t in (False, True)], cuts=KER, n=(2, 10)),
    Contract(cleared, [dict(what="A_2loop", twice=t) for t in (False, True)], cuts=KER, n=(1, 3), name="cleared_A_2loop"),
    Contract(cleared, [dict(what="calculations")], cuts=CALCCUTS, n=(1, 5), name="cleared_calculations"),
    Contract(linear, [dict(turn=t, how=h) for t in range(3) for h in HOW] + [dict(turn=0, how=h) for h in ("lin", "poly", "test")], cuts=CALCCUTS, n=(2, 10)),
    Contract(cutoffs, [dict(turn=t, how=h) for t in range(2) for h in HOW + ["default"]] + [dict(turn=0, how="all"), dict(turn=0, how="all default")], cuts=CALCCUTS, n=(2, 10))])
