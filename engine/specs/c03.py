"""C03: the quadrature rules."""
from .base import *
from prop import Contract, MEM
import terms as tm, solve
from fractions import Fraction
from .c01 import search, window, outside

# ------------------------------------------------------------------ Legendre polynomials: P_-1 := 0, P_0 = 1, (j+1) P_j+1 = (2j+1) z P_j - j P_j-1
def LEG(j, z): return tm.fn("LEG", j, z)
def unfold(t, it):
    """P_it+1 and P_0, P_-1 by their definition"""
    m = {}
    for x in tm.subterms(t):
        if x.op == "fn" and x.a[0] == "LEG":
            j, z = x.a[1], x.a[2]
            if j is IZERO: m[x] = tm.num(1)
            elif j.op == "num" and j.a[0] == -1: m[x] = tm.num(0)
            elif it is not None and tm.sub(j, it) is IONE:
                r = tm.i2r(it)
                m[x] = ((2 * r + 1) * z * LEG(it, z) - r * LEG(tm.sub(it, IONE), z)) / (r + 1)
    return tm.subst(t, m) if m else t
def same(a, b, base, it=None):
    a, b = unfold(a, it), unfold(b, it)
    if a is b: return True
    if it is not None:
        # the first iteration apart
        z = {it: IZERO}
        if not same(tm.subst(a, z), tm.subst(b, z), base): return False
    fs = list(base.facts) + ([tm.lt(IZERO, it)] if it is not None else [])
    try: return solve.EqProver(fs, deadline=__import__("time").time() + 5).prove(a, b)
    except Exception: return False
def legendre(ex, x, it, nvs, hs):
    """a cell of a recurrence holds P_it+d(z)"""
    cells = set(hs.values())
    zs = set(t for v in nvs.values() for t in tm.subterms(v) if t.s == "R" and t not in cells and not t.fv & cells and it not in t.fv and t is not tm.PI
             and (t.op == "var" or t.op == "fn" and t.a[0] != "LEG"))
    return [LEG(tm.add(it, I(d)), z) for z in sorted(zs, key=lambda z: z.id) for d in (0, -1, 1)]
OPTS = {"templates": [legendre], "eq": same}

def newton(D, n, z1):
    """one Newton step on P_n from z1: (new point, derivative)"""
    p, q = LEG(n, z1), LEG(tm.sub(n, IONE), z1)
    d = tm.i2r(n) * (z1 * p - q) / (z1 * z1 - 1)
    return z1 - p / d, d
def start(t):
    """the point the last Newton step of the code started from"""
    zs = [x.a[2] for x in tm.subterms(t) if x.op == "fn" and x.a[0] == "LEG"]
    return zs[0] if len(set(zs)) == 1 else None

EPS = Fraction(3, 10 ** 14)
def rule(D, where):
    """nodes i and n-1-i of a rule of n nodes on an interval"""
    if D.real_mode: D.env["fn:GLx"], D.env["fn:GLw"] = refs.GLx, refs.GLw
    n = D.integer("n", lo=1, hi=120)
    a, b = D.real("a", lo=-3, hi=3, pos=False), D.real("b", lo=-3, hi=3, pos=False)
    i = D.integer("i", lo=0, hi=60, pick=lambda R_: R_.rng.randrange(R_.env["n"] // 2) if where == "pair" and R_.env["n"] > 1 else (R_.env["n"] - 1) // 2)
    j = tm.sub(tm.sub(n, IONE), i)
    D.require(tm.lt(i, j) if where == "pair" else tm.eq(i, j))
    x, w = D.array("x", n), D.array("w", n)
    D.call("nodes_weights_gauss_legendre", a, b, x, w, n)
    mid, half = (a + b) / 2, (b - a) / 2
    if D.real_mode:
        # the roots themselves, by an independent computation
        D.ensure("node", D.out(x, i), tm.fn("GLx", a, b, n, i), atol=1e-11, rtol=0)
        D.ensure("weight", D.out(w, i), tm.fn("GLw", a, b, n, i), rtol=1e-8)
        D.ensure("node at the other side", D.out(x, j), tm.fn("GLx", a, b, n, j), atol=1e-11, rtol=0)
        D.ensure("weight at the other side", D.out(w, j), tm.fn("GLw", a, b, n, j), rtol=1e-8)
        return
    X, W = D.out(x, j), D.out(w, j)
    z1 = start(X)
    if z1 is None: raise Unsupported("no Newton step on the Legendre polynomial")
    z, d = newton(D, n, z1)
    if where == "pair":
        D.ensure("node", D.out(x, i), mid - half * z, ghost=[i])
        D.ensure("weight", D.out(w, i), 2 * half / ((1 - z * z) * d * d), ghost=[i])
    D.ensure("node at the other side", X, mid + half * z, ghost=[i])
    D.ensure("weight at the other side", W, 2 * half / ((1 - z * z) * d * d), ghost=[i])
    D.prove("the Newton iteration has converged", tm.le(tm.absr(z - z1), tm.num(EPS)), ghost=[i])

def interval(D):
    """the rule of an interval is the affine image of the rule of [-1,1]"""
    n = D.integer("n", lo=1, hi=80)
    a, b = D.real("a", lo=-3, hi=3, pos=False), D.real("b", lo=-3, hi=3, pos=False)
    i = D.integer("i", lo=0, hi=60, pick=lambda R_: R_.rng.randrange(R_.env["n"]))
    D.require(tm.lt(i, n))
    o = [D.array(v, n) for v in ("x", "w", "u", "v")]
    D.call("nodes_weights_gauss_legendre", a, b, o[0], o[1], n)
    D.call("nodes_weights_gauss_legendre", -1., 1., o[2], o[3], n)
    half = (b - a) / 2
    D.ensure("nodes", D.out(o[0], i), a + (D.out(o[2], i) + 1) * half, rtol=1e-9, atol=1e-11)
    D.ensure("weights", D.out(o[1], i), D.out(o[3], i) * half, rtol=1e-9)

def total(D):
    """increasing nodes inside the interval, weights that add up to its length and integrate powers"""
    if not D.real_mode: return
    n = D.integer("n", lo=1, hi=300, pick=lambda R_: R_.rng.choice([1, 2, 3, 4, 5, 10, 20, 50, 600, R_.rng.randint(1, 300)]))
    a, b = D.real("a", lo=-3, hi=3, pos=False), D.real("len", lo=0.1, hi=4)
    x, w = D.array("x", n), D.array("w", n)
    D.call("nodes_weights_gauss_legendre", a, a + b, x, w, n)
    N = int(D.env["n"])
    X, W = [x.buf[x.pad + i] for i in range(N)], [w.buf[w.pad + i] for i in range(N)]
    A, B = D.env["a"], D.env["a"] + D.env["len"]
    D.results.append(("ensures", "nodes increase inside the interval", X[:4], 0, all(p < q for p, q in zip([A] + X, X + [B]))))
    D.judge("sum of the weights", math.fsum(W), B - A, 1e-10, 0)
    for m in sorted(set([1, 2, N - 1, 2 * N - 1])):
        if not 0 < m < 2 * N or m > 60: continue
        u = [(p - A) / (B - A) for p in X]
        D.judge("integral of the power %d" % m, math.fsum(q * p ** m for p, q in zip(u, W)), (B - A) / (m + 1), 1e-9, 0)

# ------------------------------------------------------------------ angular rules
def angular(D, again):
    """an angular rule, then mapped to one interval, then to another"""
    n = D.integer("n", lo=1, hi=30)
    i = D.integer("i", lo=0, hi=29, pick=lambda R_: R_.rng.randrange(R_.env["n"]))
    D.require(tm.lt(i, n))
    P = D.record("P", "Precision", n=n, min=tm.num(-1), max=tm.num(1), interpol=tm.num(1, "I"))
    G = D.record("G", "GaussLegendreMu")
    if D.real_mode: D.env["fn:GLx"], D.env["fn:GLw"] = refs.GLx, refs.GLw
    q = QuadMu(n)
    D.call("init_gauss_legendre_mu", G, P)
    D.ensure("size", tm.i2r(D.field(G, "nmu")), tm.i2r(n))
    D.ensure("first node", D.item(G, "mu", i), tm.fn("GLx", R(-1), R(1), n, i), rtol=1e-9, atol=1e-12)
    D.ensure("first weight", D.item(G, "w", i), tm.fn("GLw", R(-1), R(1), n, i), rtol=1e-9)
    for x in range(1 + again):
        a, b = D.real("a%d" % x, lo=-1, hi=1, pos=False), D.real("b%d" % x, lo=-1, hi=1, pos=False)
        D.call("update_gauss_legendre_mu", G, a, b)
    D.ensure("node", D.item(G, "mu", i), q.mu(i, a, b), rtol=1e-9, atol=1e-12)
    D.ensure("weight", D.item(G, "w", i), q.w(i, a, b), rtol=1e-9)
    D.call("free_gauss_legendre_mu", G)
    D.freed()

# ------------------------------------------------------------------ wavenumber rules
def radial(D, itp, auto, again):
    """a logarithmic wavenumber rule, then used for one mode, then for another"""
    t = Tab(D, nlo=3, nhi=20)
    t.set()
    n = D.integer("n", lo=1, hi=40)
    i = D.integer("i", lo=0, hi=39, pick=lambda R_: R_.rng.randrange(R_.env["n"]))
    D.require(tm.lt(i, n))
    if auto == "given":
        lo, hi = D.real("min", lo=1e-4, hi=1), D.real("max", lo=0.1, hi=100)
        qlo, qhi = lo, hi
    else:
        lo, hi = D.real("min", lo=-2, hi=1, pos=False), D.real("max", lo=-2, hi=1, pos=False, pick=lambda R_: R_.rng.uniform(-2, 1 if R_.env["min"] < 0 else 0))
        D.require(tm.or_(tm.le(lo, tm.num(0)), tm.le(hi, tm.num(0))))
        qlo, qhi = t.k[0], t.k[tm.sub(t.n, IONE)]
    P = D.record("P", "Precision", n=n, min=lo, max=hi, interpol=tm.num(INTERP[itp], "I"))
    G = D.record("G", "GaussLegendreQ")
    q = Quad(n, qlo, qhi)
    D.call("init_gauss_legendre_q", G, P)
    D.ensure("size", tm.i2r(D.field(G, "nq")), tm.i2r(n))
    D.ensure("wavenumber", D.item(G, "q", i), q.q(i), rtol=1e-9)
    D.ensure("weight", D.item(G, "w", i), q.w(i), rtol=1e-9)
    D.ensure("linear spectrum there", D.item(G, "pk", i), t.P(q.q(i), INTERP[itp]), rtol=1e-6)
    D.ensure("ratio before any mode", D.item(G, "x", i), q.q(i), rtol=1e-9)
    D.ensure("mode before any", D.field(G, "k"), tm.num(1))
    for x in range(1 + again):
        k = D.real("k%d" % x, lo=1e-3, hi=3)
        D.call("update_gauss_legendre_q", G, k)
    D.ensure("ratio to the mode", D.item(G, "x", i), q.q(i) / k, rtol=1e-9)
    D.ensure("mode", D.field(G, "k"), k)
    D.ensure("wavenumber still", D.item(G, "q", i), q.q(i), rtol=1e-9)
    D.ensure("linear spectrum still", D.item(G, "pk", i), t.P(q.q(i), INTERP[itp]), rtol=1e-6)
    D.call("free_gauss_legendre_q", G)
    D.freed()

PRE = ("pre", "pre-table") + MEM
NODES = {k: BASE[k] for k in ("nodes_weights_gauss_legendre", "find_pk")}
PROP = dict(id="C03", items=[
    Contract(rule, [dict(where=w) for w in ("pair", "middle")], cuts={}, opts=OPTS, n=(200, 2000), alarm=PRE),
    Contract(interval, cuts={}, opts=OPTS, n=(100, 1000), alarm=PRE),
    Contract(total, cuts={}, n=(120, 2000), alarm=()),
    Contract(angular, [dict(again=a) for a in (0, 1)], cuts=NODES, n=(60, 400), alarm=PRE),
    Contract(radial, [dict(itp=i, auto=a, again=g) for i in ("poly", "lin") for a in ("given", "table") for g in (0, 1)], cuts=NODES, n=(30, 300), alarm=PRE)])
