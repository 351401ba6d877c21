"""C17: buffers and blocks."""
from .base import *
from prop import Contract, MEM
import terms as tm
from . import c03, c01, c02, c04, c16
from .c04 import KER, COLS, WIDTH, observe, copies
from .c16 import RUNS, width, run, threads, spectra, wavenumbers
from .c20 import CUTS, light

def anyhow(D):
    """settings of the compiled library: anything valid"""
    if not D.real_mode: return
    r = D.rng
    def three():
        lo = r.choice([-1., 1e-3, 0.05])
        return r.randint(1, 4), lo, -1. if lo < 0 else lo * r.choice([1., 1.5, 100.]), r.choice(["lin", "poly"])
    for x in c04.RULES:
        n, lo, hi, itp = three()
        k = c04.kind(x)
        if k == "q": D.call("set_precision_" + x, n, lo, hi, itp)
        elif k == "r": D.call("set_precision_" + x, lo, hi, itp)
        else: D.call("set_precision_" + x, n, itp)
    for c in c04.CALC:
        D.call("set_precision_%s_pk_lin" % c, r.choice(["lin", "poly"]))
        D.call("set_running_uvcutoff_" + c, r.choice([0., 0.3, 100.]))
    D.call("set_verbosity", r.choice(["quiet", "info", "debug"]))
def quiet(D):
    if D.real_mode: D.call("set_verbosity", "quiet")

def table(D, name=""):
    t = Tab(D, nlo=3, nhi=18, name=name)
    return t
def ks(D, nk):
    """wavenumbers inside, outside and on the points of the table"""
    def gen(R_, N):
        tk = R_.env["tabk"]
        f = [lambda: R_.rng.uniform(0.02, 0.9), lambda: R_.rng.choice(tk), lambda: tk[0] * R_.rng.uniform(0.3, 1), lambda: tk[-1] * R_.rng.uniform(1, 1.5)]
        return [R_.rng.choice(f)() for _ in range(N)]
    return D.array("K", nk, gen)

def runs(D, c):
    """one run of a calculation, every function of it in full"""
    anyhow(D)
    tab = table(D)
    tab.set()
    if c == "B": spectra(D, tab)
    nk = D.integer("nk", lo=0, hi=12)
    K = ks(D, nk)
    run(D, c, "list", nk, lambda i: K[i], threads(D, "t1"))
    quiet(D)
    D.freed()

def sequence(D, first, then):
    """two runs one after the other"""
    anyhow(D)
    tab = table(D)
    tab.set()
    for x, c in enumerate((first, then)):
        if c == "B": spectra(D, tab)
        nk = D.integer("nk%d" % x, lo=0, hi=5)
        K = D.array("K%d" % x, nk, lambda R_, N: [R_.rng.uniform(0.02, 0.9) for _ in range(N)])
        run(D, c, "r%d" % x, nk, lambda i: K[i], threads(D, "t%d" % x))
    quiet(D)
    D.freed()

def own_spectra(D, given):
    """the B calculation making its own spectra, with none, one or both of them given before; then once more; then with both given"""
    with D.startup():
        anyhow(D)
        tab, t2 = table(D), table(D, "2")
        tab.set()
        nk = D.integer("nk", lo=0, hi=4)
        K = D.array("K", nk, lambda R_, N: [R_.rng.uniform(0.02, 0.9) for _ in range(N)])
        for a in given: D.call("set_spectra_B", a, "theta", t2.n, t2.k, t2.pk)
        for x in range(2): run(D, "B", "r%d" % x, nk, lambda i: K[i], threads(D, "t1"))
        t2.set()
        run(D, "B", "r2", nk, lambda i: K[i], threads(D, "t2"))
        spectra(D, t2)
        run(D, "B", "r3", nk, lambda i: K[i], threads(D, "t2"))
        quiet(D)
        D.freed()

def spectrum(D, twice):
    """the resummed one-loop spectrum in one go"""
    anyhow(D)
    tab = table(D)
    tab.set()
    nk = D.integer("nk", lo=0, hi=6)
    K = D.array("K", nk, lambda R_, N: [R_.rng.uniform(0.02, 0.9) for _ in range(N)])
    out = D.array("out", nk)
    for x in range(1 + twice):
        D.call("set_spectrum_1loop", nk, K, out)
        D.call("run_spectrum_1loop", "theta", "delta", threads(D, "t%d" % x))
    quiet(D)
    D.freed()

def assemble(D, loop):
    nk = D.integer("nk", lo=0, hi=6)
    c = "spectrum_%dloop" % loop
    K = D.array("K", nk, lambda R_, N: [R_.rng.uniform(0.02, 0.9) for _ in range(N)])
    cols = [D.array("c%d" % i, nk) for i in range(COLS[c])]
    out = D.array("out", nk)
    D.call("set_terms_" + c, nk, K, *cols)
    D.call(c, out)
    D.freed()

def pieces(D, what):
    """each calculation at one wavenumber, taken up and put down"""
    anyhow(D)
    tab = table(D)
    lk, lp = copies(D, tab, "1")
    observe(D, tab, lk, lp, "1", what)
    quiet(D)
    D.freed()

def bispectrum(D):
    anyhow(D)
    tab = table(D)
    tab.set()
    for x in range(2):
        D.call("init_bispectrum_1loop_I")
        p, kp, k = D.real("p", lo=0.02, hi=0.5), D.real("kp", lo=0.04, hi=0.5), D.real("k", lo=0.05, hi=0.5)
        o = [D.array("b%d%d" % (i, x), 1) for i in range(8)]
        D.call("bispectrum_1loop_I", k, p, kp, *o)
        D.call("free_bispectrum_1loop_I")
    D.freed()

def rules(D, c):
    """allocation and release of the tables of every rule, also of one node, also the debugging output"""
    anyhow(D)
    tab = table(D)
    tab.set()
    for x in range(2):
        for n in c: D.call("init_" + n)
        for n in reversed(c): D.call("free_" + n)
    quiet(D)
    D.freed()

def nodes(D):
    n = D.integer("n", lo=0, hi=40)
    x, w = D.array("x", n), D.array("w", n)
    D.call("nodes_weights_gauss_legendre", D.real("a"), D.real("b"), x, w, n)
    D.freed()

def settings(D):
    """words of any length"""
    for w in ("", "lin", "poly", "polynomial", "l", "quiet", "delta", "theta"):
        D.call("set_precision_B_pk_lin", w)
        D.call("set_verbosity", w)
        D.call("set_precision_bias_1loop_q", 0, 1., -1., w)
    D.call("set_verbosity", "quiet")
    D.call("set_precision_B_mu", 0, "x")

AL = MEM
RA = ("bounds", "memory", "crash")
def C(drv, cases=({},), cuts=KER, n=(10, 120), **kw): return Contract(drv, cases, cuts=cuts, n=n, alarm=AL, real_alarm=RA, ensures=False, **kw)
def L(drv, cases=({},), cuts={}, n=(10, 120), **kw): return Contract(drv, cases, cuts=cuts, n=n, alarm=c01.PRE, real_alarm=RA, ensures=False, **kw)
INIT = ["gamma1_1loop", "gamma1_2loop", "gamma2_tree", "gamma2d_1loop", "gamma2t_1loop", "gamma3_tree", "bias_1loop", "A_1loop", "A_2loop_I", "A_2loop_II_III", "bispectrum_1loop_I"]
PROP = dict(id="C17", items=[
    C(runs, [dict(c=c) for c in RUNS]),
    C(sequence, [dict(first=a, then=b) for a in RUNS for b in RUNS], cuts=CUTS, n=(2, 20)),
    C(own_spectra, [dict(given=g) for g in ((), ("delta",), ("theta",), ("delta", "theta"))], cuts=CUTS, n=(4, 40)),
    C(own_spectra, [dict(given=())], cuts=KER, n=(4, 40), name="own_spectra_in_full"),
    C(spectrum, [dict(twice=t) for t in (0, 1)]),
    C(assemble, [dict(loop=l) for l in (1, 2)]),
    C(pieces, [dict(what=w) for w in ("rules", "A_2loop")], n=(3, 30)),
    C(bispectrum, n=(3, 30)),
    C(rules, [dict(c=[x]) for x in INIT] + [dict(c=INIT[:6]), dict(c=INIT[6:-1])]),
    C(settings, n=(2, 4)),
    # the functions of the tables, taken through their contracts above
    L(c01.dichotomy, cuts={"get_dichotomy_index": c01.recursive}, opts=dict(invariants=c01.bracketing), n=(100, 1000)),
    L(c01.poly, [dict(n=n, c=c) for n in range(1, 6) for c in range(n)], n=(20, 200)),
    L(c01.edge, [dict(side=s, nk=n) for s in ("low", "high") for n in [0] + list(range(3, 18))], n=(20, 200)),
    L(c01.lookup, [dict(itp=i, of=o) for i in ("poly", "lin") for o in ("table", "library")], cuts=c01.FIND, n=(200, 2000)),
    L(c02.listed, n=(100, 1000)),
    L(nodes, n=(100, 1000)),
    L(c03.angular, [dict(again=a) for a in (0, 1)], cuts=c03.NODES, n=(20, 200)),
    L(c03.radial, [dict(itp="poly", auto=a, again=g) for a in ("given", "table") for g in (0, 1)], cuts=c03.NODES, n=(20, 200))])
