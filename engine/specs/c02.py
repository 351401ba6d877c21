"""C02: running dispersion of the displacement."""
from .base import *
from prop import Contract, MEM
import terms as tm
from .c01 import around

def rising_to(t, j):
    """the points of the table increase: all up to j are at most the one at j"""
    return tm.forall(IZERO, tm.add(j, IONE), lambda q: tm.le(t.k[q], t.k[j]))

def trapezoids(t, j):
    """twice the integral over the first j intervals"""
    b = tm.fresh("l", "I")
    u = tm.add(b, IONE)
    return tm.sum_b(b, IZERO, j, (t.pk[u] + t.pk[b]) * (t.k[u] - t.k[b]))

def dispersion(D, where):
    """any entry i of a list, its cutoff being below the table, in interval j of it, or above it"""
    t = Tab(D, nlo=3, nhi=30)
    end = tm.sub(t.n, IONE)
    uv = D.real("uv", lo=0.01, hi=3, pick=lambda R_: R_.rng.choice([0.5, 1., R_.rng.uniform(0.1, 3)]))
    nk = D.integer("nk", lo=1, hi=25)
    i = D.integer("i", lo=0, hi=24, pick=lambda R_: R_.rng.randrange(R_.env["nk"]))
    D.require(tm.lt(i, nk))
    if where == "inside":
        j = D.integer("j", lo=0, hi=28, pick=lambda R_: R_.rng.randrange(R_.env["nlin"] - 1))
        D.require(tm.lt(j, end))
    def gen(R_, N):
        k, u = R_.env["tabk"], R_.env["uv"]
        K = [x / u for x in around(k, N, R_.rng)]
        if where == "inside":
            jj = R_.env["j"]
            x = k[jj] + (k[jj + 1] - k[jj]) * R_.rng.choice([R_.rng.uniform(0, 1), 10 ** R_.rng.uniform(-5, -1), 1 - 10 ** R_.rng.uniform(-5, -1)])
        else:
            u = R_.rng.choice([R_.rng.uniform(0, 1), 10 ** R_.rng.uniform(-5, -1)])
            x = k[0] * (1 - u) if where == "below" else k[-1] * (1 + 2 * u)
        K[R_.env["i"]] = x / u
        return K
    K = D.array("K", nk, gen)
    S = D.array("S", nk)
    kmax = K[i] * uv
    if where == "below": D.require(tm.lt(kmax, t.k[0]))
    elif where == "above":
        if not D.real_mode: D.require(rising_to(t, end))
        D.require(tm.le(t.k[end], kmax))
    else:
        if not D.real_mode: D.require(rising_to(t, j))
        D.require(tm.and_(tm.le(t.k[j], kmax), tm.lt(kmax, t.k[tm.add(j, IONE)])))
    t.set()
    D.call("calc_running_sigmad2", K, S, nk, uv)
    if where == "below": v = tm.num(0)
    elif where == "above": v = trapezoids(t, end)
    else:
        u = tm.add(j, IONE)
        at = t.pk[j] + (kmax - t.k[j]) * (t.pk[u] - t.pk[j]) / (t.k[u] - t.k[j])
        v = trapezoids(t, j) + (at + t.pk[j]) * (kmax - t.k[j])
    # integral / (6 pi^2), v being twice the integral
    D.ensure("trapezoid integral up to the cutoff", D.out(S, i), v / (12 * tm.PI ** 2), ghost=[j] if where == "inside" else [end])

def listed(D):
    """every entry of a list, alone or among others, in any order"""
    t = Tab(D, nlo=3, nhi=30)
    uv = D.real("uv", lo=0.01, hi=3, pick=lambda R_: R_.rng.choice([0.5, 1., R_.rng.uniform(0.1, 3)]))
    nk = D.integer("nk", lo=0, hi=25)
    K = D.array("K", nk, lambda R_, N: [x / R_.env["uv"] for x in around(R_.env["tabk"], N, R_.rng)])
    S = D.array("S", nk)
    i = D.integer("i", lo=0, hi=24, pick=lambda R_: R_.rng.randrange(max(1, R_.env["nk"])))
    D.require(tm.lt(i, nk))
    t.set()
    D.call("calc_running_sigmad2", K, S, nk, uv)
    if D.real_mode: D.ensure_all("dispersion", nk, lambda q: (D.out(S, q), t.sig(K[q], uv)))
    one, o = D.built("one", [K[i]]), D.array("o", 1)
    D.call("calc_running_sigmad2", one, o, 1, uv)
    D.ensure("alone and among others", D.out(S, i), D.out(o, 0), ghost=[tm.sub(t.n, IONE)])

PRE = ("pre", "pre-table") + MEM
PROP = dict(id="C02", items=[
    Contract(dispersion, [dict(where=w) for w in ("below", "inside", "above")], cuts={}, n=(400, 5000), alarm=PRE),
    Contract(listed, cuts={}, n=(300, 3000), alarm=PRE)])
