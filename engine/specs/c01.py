"""C01: lookup in a tabulated spectrum."""
from .base import *
from prop import Contract, MEM
import terms as tm
from driver import Table
from fractions import Fraction

# ------------------------------------------------------------------ the bracketing search
BRACKET = "BRACKET"
def between(x, at, lo, hi, r):
    """r is an interval of the points lo..hi that holds x"""
    return [tm.le(lo, r), tm.lt(r, hi), tm.le(at(r), x), tm.le(x, at(tm.add(r, IONE)))]

def search(ex, st, a, node, fn):
    """contract of the search: lo < hi and x within the points lo..hi; the result is an interval of them that holds x"""
    if len(a) != 4: return NotImplemented
    x, t, lo, hi = ex.as_real(a[0]), a[1], ex.as_int(a[2]), ex.as_int(a[3])
    p, v = ex.norm(st, t, node)
    if not isinstance(v, Ar): return NotImplemented
    at = lambda j: ex.simp(st, tm.sel(v.t, tm.add(p.off, j)))
    ex.oblige("pre", st, tm.and_(tm.le(IZERO, lo), tm.lt(lo, hi)), node)
    ex.oblige("pre-extent", st, tm.and_(tm.le(IZERO, tm.add(p.off, lo)), tm.lt(tm.add(p.off, hi), v.n)), node)
    ex.oblige("pre", st, tm.and_(tm.le(at(lo), x), tm.le(x, at(hi))), node)
    r = tm.ifn(BRACKET, x, lo, hi)
    st.facts = st.facts + tuple(between(x, at, lo, hi, r))
    return r
def recursive(ex, st, a, node, fn):
    """the body once; its calls of itself through the contract, on a shorter range"""
    if not any(fr.fn is fn for fr in ex.frames):
        ex.outer = ex.as_int(a[3]), ex.as_int(a[2])
        return NotImplemented
    r = search(ex, st, a, node, fn)
    hi, lo = ex.outer
    if r is not NotImplemented: ex.oblige("pre", st, tm.lt(tm.sub(ex.as_int(a[3]), ex.as_int(a[2])), tm.sub(hi, lo)), node)
    return r

def dichotomy(D):
    n = D.integer("n", lo=2, hi=40)
    tab = D.array("T", n, gen_k)
    lo = D.integer("lo", lo=0, hi=30, pick=lambda R_: R_.rng.randrange(0, R_.env["n"] - 1))
    hi = D.integer("hi", lo=1, hi=40, pick=lambda R_: R_.rng.randrange(R_.env["lo"] + 1, R_.env["n"]))
    D.require(tm.and_(tm.lt(lo, hi), tm.lt(hi, n)))
    def px(R_):
        t = R_.env["T"][R_.env["lo"]:R_.env["hi"] + 1]
        return R_.rng.choice(t) if R_.rng.random() < 0.4 else R_.rng.uniform(t[0], t[-1])
    x = D.real("x", pick=px)
    D.require(tm.and_(tm.le(tab[lo], x), tm.le(x, tab[hi])))
    mid = tm.idiv(tm.add(lo, hi), I(2))
    def rising(i): return tm.implies(tm.and_(tm.le(IZERO, i), tm.lt(tm.add(i, IONE), n)), tm.lt(tab[i], tab[tm.add(i, IONE)]))
    if not D.real_mode:
        # the points increase: at the points compared here
        for i in (lo, mid): D.require(rising(i))
        D.require(tm.and_(tm.implies(tm.lt(lo, mid), tm.lt(tab[lo], tab[mid])), tm.implies(tm.lt(mid, hi), tm.lt(tab[mid], tab[hi]))))
    r = D.call("get_dichotomy_index", x, tab, lo, hi)
    D.prove("an interval of the range", tm.and_(tm.le(lo, r), tm.lt(r, hi)))
    D.prove("that holds the point", tm.and_(tm.le(tab[r], x), tm.le(x, tab[tm.add(r, IONE)])), facts=[] if D.real_mode else [rising(r)])

def bracketing(n):
    """what a loop that narrows the range may keep: offered to the loops of the search, kept when proved"""
    x, T, lo, hi = tm.var("x"), tm.avar("T"), tm.var("lo", "I"), tm.var("hi", "I")
    pick = [lambda c, i=i: c[i] for i in range(n)]
    pick += [lambda c, i=i, j=j: tm.add(c[i], c[j]) for i in range(n) for j in range(i)] + [lambda c, i=i: tm.add(c[i], IONE) for i in range(n)]
    ends = pick + [lambda c: lo, lambda c: hi]
    out = []
    for e in pick: out += [lambda c, e=e: tm.le(tm.sel(T, e(c)), x), lambda c, e=e: tm.le(x, tm.sel(T, e(c)))]
    for a in ends:
        for b in ends:
            if a is not b: out += [lambda c, a=a, b=b: tm.lt(a(c), b(c)), lambda c, a=a, b=b: tm.le(a(c), b(c))]
    return out

# ------------------------------------------------------------------ the polynomial through n points
def lagrange(x, t, y):
    s = tm.num(0)
    for i in range(len(t)):
        l = y[i]
        for j in range(len(t)):
            if j != i: l = l * ((x - t[j]) / (t[i] - t[j]))
        s = s + l
    return s

def closest(D, x, t, c):
    """the node c is the closest one (the first such)"""
    for j in range(len(t)):
        if j < c: D.require(tm.lt(tm.absr(x - t[c]), tm.absr(x - t[j])))
        if j > c: D.require(tm.le(tm.absr(x - t[c]), tm.absr(x - t[j])))

def points(D, n, c, far=False):
    t = D.array("t", n, gen_k)
    def px(R_):
        k = R_.env["t"]
        lo = (k[c - 1] + k[c]) / 2 if c > 0 else k[0] - 0.5 * (k[1] - k[0] if n > 1 else k[0])
        hi = (k[c + 1] + k[c]) / 2 if c < n - 1 else k[-1] + 0.5 * (k[-1] - k[-2] if n > 1 else k[0])
        return lo + (hi - lo) * R_.rng.uniform(0.02, 0.98)
    x = D.real("x", pick=px)
    ts = [t[i] for i in range(n)]
    for i in range(n - 1): D.require(tm.lt(ts[i], ts[i + 1]))
    return t, ts, x

def poly(D, n, c):
    """n points, the closest one is c"""
    t, ts, x = points(D, n, c)
    y = D.array("y", n)
    closest(D, x, ts, c)
    r = D.call("interpol_poly", x, t, y, n)
    D.ensure("the polynomial through the points", r, lagrange(x, ts, [y[i] for i in range(n)]), rtol=1e-6, atol=1e-9)
    D.freed()

def exact(D, n, deg, c):
    """values on a polynomial of degree deg < n"""
    t, ts, x = points(D, n, c)
    a = [D.real("a%d" % j, lo=-1, hi=1, pos=False) for j in range(deg + 1)]
    def p(z):
        s = tm.num(0)
        for q in reversed(a): s = s * z + q
        return s
    y = D.built("y", [p(z) for z in ts])
    closest(D, x, ts, c)
    r = D.call("interpol_poly", x, t, y, n)
    D.ensure("the polynomial itself", r, p(x), rtol=1e-6, atol=1e-9)

def node(D, n, c):
    """at a point of the table: the value there"""
    t, ts, x = points(D, n, c)
    y = D.array("y", n)
    if not D.real_mode:
        for j in range(n):
            if j != c: D.require(tm.lt(tm.ZERO, tm.absr(ts[c] - ts[j])))
    D.ensure("the value given there", D.call("interpol_poly", ts[c], t, y, n), y[c], rtol=1e-6, atol=1e-9)

def straight(D):
    x, a, b, ya, yb = (D.real(v, pos=False, lo=-2, hi=2) for v in ("x", "a", "b", "ya", "yb"))
    D.require(tm.lt(a, b))
    D.ensure("straight line", D.call("interpol_lin", x, a, b, ya, yb), ya + (x - a) * (yb - ya) / (b - a), rtol=1e-6, atol=1e-9)

# ------------------------------------------------------------------ beyond the table
def slope(k, p, idx):
    s = tm.num(0)
    for i in idx:
        u, d = tm.add(i, IONE), tm.sub(i, IONE)
        s = s + tm.log(p[u] / p[d]) / tm.log(k[u] / k[d])
    return s / len(idx)
def edge(D, side, nk):
    """tables of nk points; nk = 0 stands for every table of 17 points or more"""
    n = D.integer("n", lo=17, hi=40, pick=lambda R_: R_.rng.randint(17, 40) if R_.rng.random() < 0.7 else R_.rng.randint(41, 600)) if nk == 0 else tm.num(nk, "I")
    k = D.array("k", n, gen_k)
    p = D.array("p", n, lambda R_, N: gen_pk(R_, N, "k"))
    x = D.real("x", pick=lambda R_: R_.env["k"][0] * R_.rng.uniform(0.1, 1) if side == "low" else R_.env["k"][-1] * R_.rng.uniform(1, 10), pos=True, lo=0)
    if side == "low":
        last = 15 if nk == 0 else min(15, nk - 1)
        idx, at = [I(i) for i in range(1, last)], IONE
    else:
        idx = [tm.sub(n, I(1 + s)) for s in range(15, 0, -1)] if nk == 0 else [I(i) for i in range(max(1, nk - 16), nk - 1)]
        at = tm.sub(n, IONE)
    used = dict((j, 1) for i in idx for j in (i, tm.add(i, IONE), tm.sub(i, IONE)))
    used[at] = 1
    for j in used:
        D.require(tm.lt(tm.ZERO, k[j])); D.require(tm.lt(tm.ZERO, p[j]))
        if not D.real_mode: D.pos.add(k[j]); D.pos.add(p[j])
    r = D.call("extrapol_pk_%sk" % side, Table(n, k, p), x)
    D.ensure("power law with the mean slope of the edge", r, p[at] * tm.fn("powr", x / k[at], slope(k, p, idx)))

# ------------------------------------------------------------------ the lookup
def window(ex, st, a, node, fn):
    """contract of the polynomial interpolation: the polynomial through the n points given"""
    if len(a) != 4: return NotImplemented
    x, tx, ty, n = ex.as_real(a[0]), a[1], a[2], ex.as_int(a[3])
    ex.oblige("pre", st, tm.and_(tm.le(IONE, n), tm.le(n, I(5))), node)
    fx, fy = extent(ex, st, tx, n, node), extent(ex, st, ty, n, node)
    px, vx = ex.norm(st, tx, node)
    py, vy = ex.norm(st, ty, node)
    return polynomial(x, vx.t, px.off, vy.t, py.off, n)
LAGR = {}
def polynomial(x, kt, ko, pt, po, n):
    key = (kt, pt)
    if key not in LAGR: LAGR[key] = "LAGR%d" % len(LAGR)
    return tm.fn(LAGR[key], x, ko, po, n)
def outside(side):
    def h(ex, st, a, node, fn):
        if len(a) != 2 or not isinstance(a[0], St): return NotImplemented
        pk = a[0]
        ex.oblige("pre-table", st, tm.le(I(3), pk.f["nk"]), node)
        extent(ex, st, pk.f["k"], pk.f["nk"], node)
        extent(ex, st, pk.f["pk"], pk.f["nk"], node)
        return tm.fn(tablename(ex, st, pk, node) + side, ex.as_real(a[1]))
    return h
FIND = {"get_dichotomy_index": search, "interpol_poly": window, "extrapol_pk_lowk": outside("low"), "extrapol_pk_highk": outside("high")}

def around(k, N, rng):
    f = [lambda: rng.choice(k), lambda: k[0] * rng.uniform(0.2, 1), lambda: k[-1] * rng.uniform(1, 4), lambda: rng.uniform(k[0], k[-1]),
         lambda: math.exp(rng.uniform(math.log(k[0]), math.log(k[-1]))), lambda: rng.choice([k[0], k[-1], rng.choice(k)]) * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-5, -1)), lambda: k[0], lambda: k[-1], lambda: k[1], lambda: k[-2]]
    return [rng.choice(f)() for _ in range(N)]

def lookup(D, itp, of):
    """every entry of a list of wavenumbers"""
    t = Tab(D, nlo=3, nhi=30)
    nk = D.integer("nk", lo=0, hi=25)
    K = D.array("K", nk, lambda R_, N: around(R_.env["tabk"], N, R_.rng))
    P = D.array("P", nk)
    m = INTERP[itp]
    k0, k1 = t.k[0], t.k[tm.sub(t.n, IONE)]
    if not D.real_mode: D.require(tm.lt(k0, k1))       # the points increase
    if of == "table": D.call("find_pk", Table(t.n, t.k, t.pk), K, P, nk, m)
    else:
        t.set()
        D.call("find_pk_lin", K, P, nk, m)
    def spec(i):
        if D.real_mode: return t.P(K[i], m)
        x, end = K[i], tm.sub(t.n, IONE)
        b = tm.ifn(BRACKET, x, IZERO, end)
        if itp == "poly":
            lo, hi = tm.ite(tm.lt(b, I(2)), IZERO, tm.sub(b, I(2))), tm.ite(tm.lt(end, tm.add(b, I(2))), end, tm.add(b, I(2)))
            v = polynomial(x, tm.avar("tabk"), lo, tm.avar("tabpk"), lo, tm.add(tm.sub(hi, lo), IONE))
        else:
            u = tm.add(b, IONE)
            v = t.pk[b] + (x - t.k[b]) * (t.pk[u] - t.pk[b]) / (t.k[u] - t.k[b])
        return tm.ite(tm.lt(k1, x), tm.fn(t.name + "high", x), tm.ite(tm.lt(x, k0), tm.fn(t.name + "low", x), v))
    D.ensure_all("value", nk, lambda i: (D.out(P, i), spec(i)), rtol=1e-6, atol=1e-9)

PRE = ("pre", "pre-table") + MEM
PROP = dict(id="C01", items=[
    Contract(dichotomy, cuts={"get_dichotomy_index": recursive}, opts=dict(invariants=bracketing), n=(300, 3000), alarm=PRE),
    Contract(poly, [dict(n=n, c=c) for n in range(1, 7) for c in range(n)], cuts={}, n=(60, 600), alarm=PRE),
    Contract(exact, [dict(n=n, deg=d, c=c) for n in (3, 4, 5) for d in range(n) for c in range(n)], cuts={}, n=(20, 200)),
    Contract(node, [dict(n=n, c=c) for n in range(1, 7) for c in range(n)], cuts={}, n=(5, 50)),
    Contract(straight, cuts={}, n=(60, 300)),
    Contract(edge, [dict(side=s, nk=n) for s in ("low", "high") for n in [0] + list(range(3, 18))], cuts={}, n=(40, 400), alarm=MEM),
    Contract(lookup, [dict(itp=i, of=o) for i in ("poly", "lin") for o in ("table", "library")], cuts=FIND, n=(300, 4000), alarm=PRE)])
