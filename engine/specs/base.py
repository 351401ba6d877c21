"""Contracts used at call sites, and the prelude shared by the drivers."""
import math
import terms as tm
from terms import T, TRUE, FALSE, IZERO, IONE
import symexec as sx
from symexec import Ptr, Ar, St, OPQ, Unsupported
import refs

def R(x): return tm.lift(x)
def I(x): return tm.lift(x, "I")

# ------------------------------------------------------------------ callee contracts
def ptypes(fn): return [sx.clean(t) for _, t, _ in fn.params]

def arr_of(ex, st, p, n):
    p, v = ex.norm(st, p, n)
    return p, v

def fill(ex, st, p, cnt, val, node):
    """contract effect: p[j] = val(j) for 0 <= j < cnt"""
    p, v = ex.norm(st, p, node)
    ex.live(st, p.obj, node)
    if not isinstance(v, Ar):
        ex.oblige("pre", st, tm.le(cnt, IONE), node)
        if cnt is IONE: ex.store(st, p, val(IZERO), node)
        else: raise Unsupported("array effect on a scalar")
        return
    if cnt.op == "num" and cnt.a[0] <= 8:
        for j in range(cnt.a[0]): ex.store(st, Ptr(p.obj, p.path, tm.add(p.off, I(j))), val(I(j)), node)
        return
    ex.oblige("pre-extent", st, tm.or_(tm.le(cnt, IZERO), tm.and_(tm.le(IZERO, p.off), tm.le(tm.add(p.off, cnt), v.n))), node)
    if ex.writes is not None and not ex.quiet: ex.writes.append((Ptr(p.obj, p.path, None), st.guards, st.facts, ex.where(node), ex.exclusive))
    t = tm.lam(lambda j: tm.ite(tm.and_(tm.le(p.off, j), tm.lt(j, tm.add(p.off, cnt))), val(tm.sub(j, p.off)), tm.sel(v.t, j)))
    st.mem[p.obj] = ex.upd(ex.root(st, p.obj), p.path, Ar(t, v.n))

def extent(ex, st, p, cnt, node):
    """contract precondition: p[0..cnt) is readable"""
    p, v = ex.norm(st, p, node)
    ex.live(st, p.obj, node)
    if isinstance(v, Ar):
        if ex.reads is not None and not ex.quiet:
            ex.reads.append((Ptr(p.obj, p.path, p.off if cnt is IONE else None), st.guards, st.facts, ex.where(node)))
        ex.oblige("pre-extent", st, tm.or_(tm.le(cnt, IZERO), tm.and_(tm.le(IZERO, p.off), tm.le(tm.add(p.off, cnt), v.n))), node)
        return (lambda j: ex.simp(st, tm.sel(v.t, tm.add(p.off, j))))
    ex.oblige("pre-extent", st, tm.le(cnt, IONE), node)
    val = ex.load(st, p, node)
    return lambda j: val

def tablename(ex, st, pk, node):
    kp, pp, nk = pk.f["k"], pk.f["pk"], pk.f["nk"]
    if not isinstance(kp, Ptr) or not isinstance(pp, Ptr) or kp.obj is None: raise Unsupported("table pointers")
    a = ex.sub(ex.root(st, kp.obj), kp.path)
    b = ex.sub(ex.root(st, pp.obj), pp.path)
    if not isinstance(a, Ar) or not isinstance(b, Ar): raise Unsupported("table contents")
    key = (a.t, kp.off, b.t, pp.off, nk)
    if st.loopvars and any(set(st.loopvars) & t.fv for t in key): raise Unsupported("table built inside a loop")
    return table_fn(key)

TABLES = {}
def table_fn(key):
    if key not in TABLES: TABLES[key] = "PK%d" % len(TABLES)
    return TABLES[key]
def pkfn(kt, pt, nk, koff=IZERO, poff=IZERO):
    return table_fn((kt, koff, pt, poff, nk))

def cut_find_pk(ex, st, a, node, fn):
    if ptypes(fn) != ["Pk", "histo_t *", "histo_t *", "unsigned long", "INTERPOL"] and len(fn.params) != 5: return NotImplemented
    pk, kp, pp, nk, itp = a
    if not isinstance(pk, St) or not isinstance(kp, Ptr) or not isinstance(pp, Ptr): return NotImplemented
    nk = ex.as_int(nk)
    extent(ex, st, pk.f["k"], pk.f["nk"], node)
    extent(ex, st, pk.f["pk"], pk.f["nk"], node)
    ex.oblige("pre-table", st, tm.le(I(3), pk.f["nk"]), node)
    name = tablename(ex, st, pk, node)
    if ex.decide(st, tm.le(nk, IZERO)) is TRUE: return None
    kv = extent(ex, st, kp, nk, node)
    fill(ex, st, pp, nk, lambda j: tm.fn(name, kv(j), ex.as_int(itp)), node)
    return None

def cut_nodes(ex, st, a, node, fn):
    if len(fn.params) != 5: return NotImplemented
    lo, hi, x, w, n = a
    lo, hi, n = ex.as_real(lo), ex.as_real(hi), ex.as_int(n)
    fill(ex, st, x, n, lambda j: tm.fn("GLx", lo, hi, n, j), node)
    fill(ex, st, w, n, lambda j: tm.fn("GLw", lo, hi, n, j), node)
    return None

def cut_sigmad2(ex, st, a, node, fn):
    if len(fn.params) != 4: return NotImplemented
    kp, out, nk, uv = a
    nk, uv = ex.as_int(nk), ex.as_real(uv)
    gp = ex.root(st, ex.gobj("pk_lin", fn.file))
    extent(ex, st, gp.f["k"], gp.f["nk"], node)
    extent(ex, st, gp.f["pk"], gp.f["nk"], node)
    name = tablename(ex, st, gp, node).replace("PK", "SIG")
    if ex.decide(st, tm.le(nk, IZERO)) is TRUE: return None
    kv = extent(ex, st, kp, nk, node)
    fill(ex, st, out, nk, lambda j: tm.fn(name, kv(j), uv), node)
    return None

def opaque(name, nargs):
    def h(ex, st, a, node, fn):
        if len(a) != nargs: return NotImplemented
        return tm.fn(name, *[x if isinstance(x, T) else None for x in a])
    return h

NSUV = tm.var("Nsuave", "I")
def cut_suave(ex, st, a, node, fn):
    """the external integrator returns, for every component, a weighted sum of the integrand over points of the unit hypercube
    (any number of points, any points, any weights)"""
    if len(a) != 22 or not isinstance(a[2], sx.FnPtr): return NotImplemented
    ndim, ncomp = ex.as_int(a[0]), ex.as_int(a[1])
    if ndim.op != "num" or ncomp.op != "num": raise Unsupported("integrator dimensions")
    nd, nc = ndim.a[0], ncomp.a[0]
    n = tm.fresh("pt", "I")
    s2 = st.copy()
    us = [tm.fn("SUVx", n, I(d)) for d in range(nd)]
    s2.facts = s2.facts + (tm.le(IZERO, n), tm.lt(n, NSUV)) + tuple(tm.le(tm.num(0), u) for u in us) + tuple(tm.le(u, tm.num(1)) for u in us)
    ox, of, od, oc = (("l", ex.newid(), nm) for nm in ("x", "f", "ndim", "ncomp"))
    tx = tm.avar("suvx")
    for d, u in enumerate(us): tx = tm.store(tx, I(d), u)
    s2.mem[ox], s2.mem[of] = Ar(tx, ndim), Ar(tm.avar("suvf%d" % ex.newid()), ncomp)
    s2.mem[od], s2.mem[oc] = ndim, ncomp
    for o in (ox, of): ex.types[o] = "double"
    before = dict(s2.mem)
    user = a[3]
    ex.call(a[2].fn, [Ptr(od), Ptr(ox), Ptr(oc), Ptr(of), user], s2, node)
    for o, v in s2.mem.items():
        if o != of and o in st.mem and not (v == st.mem[o]): raise Unsupported("the integrand writes %s" % (o,))
    fv = s2.mem[of]
    w = tm.fn("SUVw", n)
    for c in range(nc):
        v = ex.simp(s2, tm.sel(fv.t, I(c)))
        p = a[19]
        ex.store(st, Ptr(p.obj, p.path, tm.add(p.off, I(c))), tm.sum_b(n, IZERO, NSUV, tm.mul(v, w)), node)
    for q, k in ((a[20], nc), (a[21], nc)):
        for c in range(k): ex.store(st, Ptr(q.obj, q.path, tm.add(q.off, I(c))), tm.var("suave_err%d" % ex.newid()), node)
    for q in a[16:19]: ex.store(st, q, tm.var("suave_int%d" % ex.newid(), "I"), node)
    return None

BASE = {"Suave": cut_suave, "find_pk": cut_find_pk, "nodes_weights_gauss_legendre": cut_nodes, "calc_running_sigmad2": cut_sigmad2,
        "gamma2d_1loop": opaque("gamma2d_1loop", 3), "gamma2t_1loop": opaque("gamma2t_1loop", 3)}

# ------------------------------------------------------------------ the linear spectrum
def gen_k(R_, n):
    lo, hi = R_.env.get("_tablo", 1e-3), R_.env.get("_tabhi", 20.)
    xs = sorted(R_.rng.uniform(0, 1) for _ in range(n))
    xs = [(x + i) / (n + 1.) for i, x in enumerate(xs)]
    return [lo * (hi / lo) ** x for x in xs]
gen_k.increasing = True
def gen_pk(R_, n, key="tabk"):
    k = R_.env[key]
    s = R_.rng.uniform(0.5, 2)
    return [s * 1e3 * x * 20 / (1 + (x * 30) ** 2.3) * (1 + 0.3 * math.sin(9 * math.log(x) + s)) for x in k]

class Tab(object):
    """the linear power spectrum handed to the library"""
    def __init__(self, D, nlo=3, nhi=14, name=""):
        n = D.integer("nlin" + name, lo=nlo, hi=nhi)
        self.n = n
        self.k = D.array("tabk" + name, n, gen_k)
        self.pk = D.array("tabpk" + name, n, lambda R_, N: gen_pk(R_, N, "tabk" + name))
        self.D = D
        self.name = pkfn(tm.avar("tabk" + name), tm.avar("tabpk" + name), n)
        if D.real_mode:
            kk, pp = D.env["tabk" + name], D.env["tabpk" + name]
            D.env["fn:" + self.name] = lambda x, i: refs.lookup(x, i, kk, pp)
            D.env["fn:" + self.name.replace("PK", "SIG")] = lambda x, u: refs.sigmad2(x, u, kk, pp)
            D.env["fn:GLx"], D.env["fn:GLw"] = refs.GLx, refs.GLw
            D.env["fn:SUVx"], D.env["fn:SUVw"], D.env["Nsuave"] = refs.suave_x, (lambda n: 1 / 12.), 12
            for nm in ("gamma2d_1loop", "gamma2t_1loop"):
                def f(a, b, c, nm=nm):
                    import ctypes
                    g = getattr(D.lib, nm)
                    g.restype = ctypes.c_double
                    return g(ctypes.c_double(float(a)), ctypes.c_double(float(b)), ctypes.c_double(float(c)))
                D.env["fn:" + nm] = f
        else:
            D.require(tm.lt(tm.ZERO, self.k[0]))
            if nlo > 1: D.require(tm.lt(self.k[0], self.k[tm.sub(n, IONE)]))       # the points increase
            D.pos.add(self.k[0]); D.pos.add(self.k[tm.sub(n, IONE)])
    def P(self, x, interpol=1): return tm.fn(self.name, R(x), I(interpol) if not isinstance(interpol, T) else interpol)
    def sig(self, x, uv): return tm.fn(self.name.replace("PK", "SIG"), R(x), R(uv))
    def set(self): self.D.call("set_pk_lin", self.k, self.pk, self.n)

class Quad(object):
    """the logarithmic wavenumber rule with n nodes between qmin and qmax"""
    def __init__(self, n, qmin, qmax): self.n, self.lo, self.hi = n, tm.log(qmin), tm.log(qmax)
    def q(self, i): return tm.exp(tm.fn("GLx", self.lo, self.hi, self.n, i))
    def w(self, i): return tm.fn("GLw", self.lo, self.hi, self.n, i)
class QuadMu(object):
    """an angular rule mapped to [a,b]"""
    def __init__(self, n): self.n = n
    def mu(self, j, a, b): return (tm.fn("GLx", R(-1), R(1), self.n, j) + 1) * ((b - a) / 2) + a
    def w(self, j, a, b): return tm.fn("GLw", R(-1), R(1), self.n, j) * ((b - a) / 2)

INTERP = {"poly": 1, "lin": 0}

def qsetting(D, setter, name="q", lo=1e-3, hi=5., nhi=5, itp="poly", near=None):
    """configure a wavenumber rule through the public setter; returns the Quad"""
    n = D.integer("n" + name, lo=1, hi=nhi)
    def pmin(R_):
        if near and R_.rng.random() < 0.7: return near(R_)
        return math.exp(R_.rng.uniform(math.log(lo), math.log(hi / 3)))
    qmin = D.real(name + "min", lo=lo, hi=hi, pick=pmin)
    qmax = D.real(name + "max", lo=lo, hi=hi, pick=lambda R_: R_.env[name + "min"] * (1 + math.exp(R_.rng.uniform(math.log(1e-3), math.log(30)))))
    D.require(tm.le(qmin, qmax))
    D.call(setter, n, qmin, qmax, itp)
    return Quad(n, qmin, qmax)
