"""C16: what a run writes for one element is that element's own, for any list, number of threads and schedule."""
from .base import *
from pysym import guarded
from prop import Contract, MEM
import terms as tm
from . import c04, c20, c24
from .c04 import KER, COLS, WIDTH, CALC
from .c20 import CUTS, COLUMNS, NC, light, PTab, g

RUNS = list(COLS)
def width(c): return [1] * (COLS[c] - 1) + [WIDTH.get(c, 1)]
def threads(D, name): return D.integer(name, lo=0, hi=8)

def spectra(D, tab):
    for a in ("delta", "theta"): D.call("set_spectra_B", a, "theta", tab.n, tab.k, tab.pk)

def run(D, c, tag, nk, kf, nt, f=("delta", "theta")):
    """one run of the calculation on its own arrays"""
    k = D.filled("k!" + tag, nk, kf)
    cols = [D.array("%s%d!%s" % (c, i, tag), tm.mul(nk, I(n))) for i, n in enumerate(width(c))]
    D.call("set_terms_" + c, nk, k, *cols)
    D.call("run_terms_" + c, *((f if c.startswith("spectrum") else ()) + (nt,)))
    return k, cols
def same(D, label, c, cols, i, cols2, j, rtol=1e-12):
    for x, (a, b, n) in enumerate(zip(cols, cols2, width(c))):
        for y in range(n): D.ensure("%s: column %d[%d]" % (label, x, y), D.out(a, tm.add(tm.mul(i, I(n)), I(y))), D.out(b, tm.add(tm.mul(j, I(n)), I(y))), rtol=rtol)

def wavenumbers(D, nk):
    def gen(R_, N):
        v = [R_.rng.uniform(0.02, 0.9) for _ in range(N)]
        if N > 1 and R_.rng.random() < 0.4: v[R_.rng.randrange(N)] = v[R_.rng.randrange(N)]      # repeated
        return v
    return D.array("K", nk, gen)

def alone(D, c, f=("delta", "theta")):
    """every element of a run on any list is what a run on that wavenumber alone gives, whatever the numbers of threads"""
    light(D)
    tab = Tab(D, nhi=6)
    tab.set()
    if c == "B": spectra(D, tab)
    nk = D.integer("nk", lo=1, hi=6)
    K = wavenumbers(D, nk)
    k, cols = run(D, c, "list", nk, lambda i: K[i], threads(D, "t1"), f)
    i = D.integer("i", lo=0, hi=5, pick=lambda R_: R_.rng.randrange(R_.env["nk"]))
    D.require(tm.lt(i, nk))
    one, cols1 = run(D, c, "one", I(1), lambda j: K[i], threads(D, "t2"), f)
    same(D, "element", c, cols, i, cols1, I(0))
    D.ensure_all("wavenumbers unchanged", nk, lambda j: (D.out(k, j), K[j]))
    D.ensure_all("spectrum unchanged: wavenumbers", tab.n, lambda j: (D.out(tab.k, j), tab.k[j]))
    D.ensure_all("spectrum unchanged", tab.n, lambda j: (D.out(tab.pk, j), tab.pk[j]))

def reordered(D, c, how):
    """any order, any part of the list"""
    light(D)
    tab = Tab(D, nhi=6)
    tab.set()
    if c == "B": spectra(D, tab)
    nk = D.integer("nk", lo=1, hi=6)
    K = wavenumbers(D, nk)
    k, cols = run(D, c, "list", nk, lambda i: K[i], threads(D, "t1"))
    m, p = {"reversed": (nk, lambda i: nk - 1 - i), "every other": (tm.idiv(nk + 1, I(2)), lambda i: i * 2), "tail": (tm.idiv(nk, I(2)), lambda i: nk - 1 - i)}[how]
    k2, cols2 = run(D, c, "other", m, lambda i: K[p(i)], threads(D, "t2"))
    for x, (a, b, n) in enumerate(zip(cols, cols2, width(c))):
        for y in range(n):
            D.ensure_all("column %d[%d]" % (x, y), m, lambda j: (D.out(a, tm.add(tm.mul(p(j), I(n)), I(y))), D.out(b, tm.add(tm.mul(j, I(n)), I(y)))), rtol=1e-12)

def schedule(D, c):
    """no two iterations, and no two threads, touch the same location unless both only read it: the calculation in full"""
    light(D)
    tab = Tab(D, nhi=6)
    tab.set()
    if c == "B": spectra(D, tab)
    nk = D.integer("nk", lo=0, hi=12)
    K = wavenumbers(D, nk)
    t = threads(D, "t1")
    k, cols = run(D, c, "list", nk, lambda i: K[i], t)
    if D.real_mode:
        # the same again, on one thread, then on many
        for nt in (1, 8):
            k2, cols2 = run(D, c, "t%d" % nt, nk, lambda i: K[i], I(nt))
            for j in range(int(D.v(nk))): same(D, "%d threads" % nt, c, cols, I(j), cols2, I(j))

def empty(D, c):
    """an empty list: nothing is written"""
    light(D)
    tab = Tab(D, nhi=6)
    tab.set()
    if c == "B": spectra(D, tab)
    D.call("set_verbosity", "info")
    m = D.integer("m", lo=1, hi=4)
    before = [D.array("col%d" % i, m) for i in range(COLS[c])]
    k = D.array("K", m)
    D.call("set_terms_" + c, I(0), k, *before)
    D.call("run_terms_" + c, *((("delta", "theta") if c.startswith("spectrum") else ()) + (threads(D, "t1"),)))
    D.call("set_verbosity", "quiet")
    for x, h in enumerate(before): D.ensure_all("column %d" % x, m, lambda j: (D.out(h, j), h[j]))

def spectrum(D, loop):
    """the resummed spectra computed in one go"""
    light(D)
    tab = Tab(D, nhi=6)
    tab.set()
    nk = D.integer("nk", lo=1, hi=6)
    K = wavenumbers(D, nk)
    i = D.integer("i", lo=0, hi=5, pick=lambda R_: R_.rng.randrange(R_.env["nk"]))
    D.require(tm.lt(i, nk))
    out, one = D.array("out", nk), D.array("one", I(1))
    k, k1 = D.filled("k", nk, lambda j: K[j]), D.filled("k1", I(1), lambda j: K[i])
    for n, a, b, t in ((nk, k, out, "t1"), (I(1), k1, one, "t2")):
        D.call("set_spectrum_%dloop" % loop, n, a, b)
        D.call("run_spectrum_%dloop" % loop, "delta", "theta", threads(D, t))
    D.ensure("element", D.out(out, i), D.out(one, I(0)), rtol=1e-12)

# ------------------------------------------------------------------ the parts taken for granted above touch nothing but their own
def framed(D, name, *args):
    """a call that writes only what it was given to write, the stack, its own blocks and data private to the thread"""
    if D.real_mode: return D.call(name, *args)
    from symexec import Obl
    E = D.E
    old = E.writes
    E.writes = []
    try: r = D.call(name, *args)
    finally:
        w, E.writes = E.writes, old
    given = {E_.ptr.obj for E_ in args if hasattr(E_, "ptr")}
    for p, g_, f, wh, excl in w:
        o = p.obj
        if o[0] != "g" or o in given: continue
        gv = D.P.gv(o[2], o[1])
        if gv is not None and gv.tls: continue
        E.obls.append(Obl("race", list(f) + list(g_), tm.FALSE, "%s writes %s" % (wh, o[2])))
    return r

def parts(D, name):
    tab = Tab(D, nhi=6)
    tab.set()
    light(D)
    v = lambda n: D.real(n, lo=0.05, hi=0.9)
    k, p = v("k"), v("p")
    q = D.real("kp", lo=1e-3, hi=2., pick=lambda R_: abs(R_.env["k"] - R_.env["p"]) + R_.rng.uniform(0.05, 0.95) * 2 * min(R_.env["k"], R_.env["p"]))
    if name == "bispectrum_1loop_I":
        D.call("init_bispectrum_1loop_I")
        o = [D.array("b%d" % i, 1) for i in range(8)]
        framed(D, name, k, p, q, *o)
        r1 = [D.out(x, I(0)) for x in o]
        if D.real_mode: D.call(name, q, k, p, *o)
        framed(D, name, k, p, q, *o)
        for i, x in enumerate(o): D.ensure("again %d" % i, r1[i], D.out(x, I(0)))
        D.call("free_bispectrum_1loop_I")
    elif name in ("gamma2d_1loop", "gamma2t_1loop"):
        D.call("init_" + name)
        r = framed(D, name, k, p, q)
        r2 = framed(D, name, k, p, q)
        D.ensure("again", r, r2)
        D.call("free_" + name)
    elif name in ("find_pk_lin",):
        K, o = D.filled("K", I(1), lambda i: k), D.array("o", 1)
        framed(D, name, K, o, I(1), I(1))
    elif name == "calc_running_sigmad2":
        K, o = D.filled("K", I(1), lambda i: k), D.array("o", 1)
        framed(D, name, K, o, I(1), p)
    elif name.startswith("kernel"):
        r = framed(D, name, k, p, q, v("q"))
        r2 = framed(D, name, k, p, q, v("q"))
        D.ensure("again", r, r2)

def follows(D, name, f=0):
    """between the start and the end of a run, what a thread computes for a wavenumber does not depend on the ones it did before"""
    from driver import FnRef, Table
    tab = Tab(D, nhi=6)
    tab.set()
    light(D)
    k = D.real("k", lo=0.05, hi=0.9)
    def near(R_):
        u = R_.rng.random()
        if u < 0.6: return R_.env["k"] * (1 + R_.rng.choice((-1, 1)) * 10 ** R_.rng.uniform(-7, -1))
        return R_.rng.uniform(0.05, 0.9)
    k0 = D.real("k0", lo=0.05, hi=0.9, pick=near)
    part = name.replace("calc_pk_", "")
    n = {"gamma1_2loop": 4, "gamma2_1loop": 3, "A_1loop": 5, "B": 12, "A_2loop_I": 12, "A_2loop_II_III": 12}.get(part, 1)
    def start():
        if part == "gamma1_2loop" and name != part: D.call("init_gamma1")
        elif part.startswith("gamma2"): D.call("init_gamma2_tree")
        elif part == "B": D.call("init_B", Table(tab.n, tab.k, tab.pk), Table(tab.n, tab.k, tab.pk))
        else: D.call("init_" + part)
        if part == "gamma2_1loop":
            for x in "dt": D.call("init_gamma2%s_1loop" % x)
    def stop():
        if part == "gamma1_2loop" and name != part: D.call("free_gamma1")
        elif part.startswith("gamma2"): D.call("free_gamma2_tree")
        else: D.call("free_" + part)
        if part == "gamma2_1loop":
            for x in "dt": D.call("free_gamma2%s_1loop" % x)
    def at(x, tag, i=0):
        if name in ("gamma1_1loop", "gamma1_2loop"): return [D.call(name, f, x)]
        if part == "bias_1loop": return [D.call(name, f, x, FnRef("kernel_b2"), 0)]
        if part == "gamma1_2loop":
            o = [D.array("o%d!%s" % (j, tag), 1) for j in range(n)]
            D.call(name, f, 1, x, *o)
            return [D.out(h, 0) for h in o]
        if part.startswith(("gamma2", "gamma3")):
            o = [D.array("o%d!%s" % (j, tag), 1) for j in range(n)]
            D.call(name, f, 1, x, *o)
            return [D.out(h, 0) for h in o]
        o = D.array("o!" + tag, n)
        D.call(name, x, o)
        return [D.out(o, j) for j in range(n)]
    start(); at(k0, "before"); a = at(k, "after"); stop()
    start(); b = at(k, "alone"); stop()
    for j, (x, y) in enumerate(zip(a, b)): D.ensure("value %d" % j, x, y, rtol=1e-12)

AL = ("race",)
PARTCUTS = dict(KER)
PROP = dict(id="C16", items=[
    Contract(alone, [dict(c=c) for c in RUNS] + [dict(c=c, f=("theta", "theta")) for c in RUNS[:2]], cuts=CUTS, n=(12, 80), alarm=AL),
    Contract(reordered, [dict(c=c, how=h) for c in RUNS for h in ("reversed", "every other", "tail")], cuts=CUTS, n=(3, 20), alarm=AL),
    Contract(schedule, [dict(c=c) for c in RUNS], cuts=KER, n=(6, 60), alarm=AL, ensures=False),
    Contract(empty, [dict(c=c) for c in RUNS], cuts=CUTS, n=(2, 10), alarm=AL),
    Contract(spectrum, [dict(loop=1)], cuts=CUTS, n=(4, 20), alarm=AL),
    Contract(parts, [dict(name=x) for x in ("bispectrum_1loop_I", "gamma2d_1loop", "gamma2t_1loop")], cuts=KER, n=(3, 20), alarm=AL),
    Contract(follows, [dict(name=x) for x in ("gamma1_1loop", "gamma1_2loop", "calc_pk_gamma1_2loop", "calc_pk_gamma2_tree", "calc_pk_gamma2_1loop", "calc_pk_gamma3_tree",
                                              "calc_pk_bias_1loop", "calc_pk_A_1loop", "calc_pk_B", "calc_pk_A_2loop_I")] +
                      [dict(name=x, f=1) for x in ("gamma1_1loop", "gamma1_2loop", "calc_pk_gamma2_tree", "calc_pk_gamma3_tree")], cuts=KER, n=(6, 30), alarm=AL),
    Contract(follows, [dict(name="calc_pk_A_2loop_II_III")], cuts=KER, n=(2, 8), alarm=AL, name="follows_A_2loop")])
