"""Discharging: z3 for conditions, the normal form plus case splitting for equalities."""
import time, itertools
from fractions import Fraction
import z3
import terms as tm
import nf as nfm
from terms import TRUE, FALSE

STATS = {"z3": 0, "z3_s": 0.0, "eq": 0, "eq_s": 0.0}

# ------------------------------------------------------------------ z3
class Z3T(object):
    def __init__(self):
        self.memo = {}
        self.fns = {}
        self.extra = []
        self.bound = {}
    def fun(self, name, n, sort):
        k = (name, n, sort)
        if k not in self.fns:
            self.fns[k] = z3.Function("f_" + str(len(self.fns)), *([z3.RealSort()] * n + [sort]))
        return self.fns[k]
    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._tr(t)
            self.memo[t] = r
        return r
    def _tr(self, t):
        op, a = t.op, t.a
        if op == "num":
            if t.s == "I": return z3.IntVal(a[0])
            return z3.RealVal(a[0])
        if op == "true": return z3.BoolVal(True)
        if op == "false": return z3.BoolVal(False)
        if op == "var":
            if t.s == "I":
                if t in tm.UNSIGNED: self.extra.append(z3.Int(a[0]) >= 0)
                return z3.Int(a[0])
            if t.s == "R": return z3.Real(a[0])
            if t.s == "B": return z3.Bool(a[0])
            return z3.Array("A_" + a[0], z3.IntSort(), z3.RealSort() if t.s == "AR" else z3.IntSort())
        if op == "add":
            return z3.Sum([self.tr(x) for x in a]) if len(a) > 2 else self.tr(a[0]) + self.tr(a[1])
        if op == "mul":
            r = self.tr(a[0])
            for x in a[1:]: r = r * self.tr(x)
            return r
        if op == "pow":
            b = self.tr(a[0])
            r = b
            for _ in range(abs(a[1]) - 1): r = r * b
            return r if a[1] > 0 else 1 / r
        if op == "i2r": return z3.ToReal(self.tr(a[0]))
        if op == "idiv": return self.tr(a[0]) / self.tr(a[1])
        if op == "imod": return self.tr(a[0]) % self.tr(a[1])
        if op == "lt": return self.tr(a[0]) < self.tr(a[1])
        if op == "eq": return self.tr(a[0]) == self.tr(a[1])
        if op == "not": return z3.Not(self.tr(a[0]))
        if op == "and": return z3.And([self.tr(x) for x in a])
        if op == "or": return z3.Or([self.tr(x) for x in a])
        if op == "ite": return z3.If(self.tr(a[0]), self.tr(a[1]), self.tr(a[2]))
        if op == "sel": return z3.Select(self.tr(a[0]), self.tr(a[1]))
        if op == "store": return z3.Store(self.tr(a[0]), self.tr(a[1]), self.tr(a[2]))
        if op == "const": return z3.K(z3.IntSort(), self.tr(a[0]))
        if op == "all":
            b, body, lo, hi = a
            nb = tm.var("q!%d" % len(self.memo), "I")
            x = z3.Int(nb.a[0])
            bd = self.tr(tm.subst(body, {b: nb}))
            return z3.ForAll([x], z3.Implies(z3.And(self.tr(lo) <= x, x < self.tr(hi)), bd))
        if op in ("fn", "ifn", "bfn"):
            args = [self.tr(x) for x in a[1:]]
            args = [z3.ToReal(x) if x.sort() == z3.IntSort() else x for x in args]
            if op == "fn" and a[0] == "abs": return z3.If(args[0] >= 0, args[0], -args[0])
            so = {"fn": z3.RealSort(), "ifn": z3.IntSort(), "bfn": z3.BoolSort()}[op]
            if not args:
                return {"fn": z3.Real, "ifn": z3.Int, "bfn": z3.Bool}[op]("c_" + str(a[0]))
            r = self.fun(a[0], len(args), so)(*args)
            if op == "fn" and not t.bh and not any(v.a[0].startswith(("q!", "#", "@")) for v in t.fv):
                if a[0] == "sqrt": self.extra += [r >= 0, z3.Implies(args[0] >= 0, r * r == args[0])]
                if a[0] == "exp": self.extra += [r > 0]
            return r
        if op == "sum" or op == "lam":
            return z3.Const("s_%d" % t.id, {"R": z3.RealSort(), "I": z3.IntSort(),
                                            "AR": z3.ArraySort(z3.IntSort(), z3.RealSort()),
                                            "AI": z3.ArraySort(z3.IntSort(), z3.IntSort())}[t.s])
        raise NotImplementedError("z3 " + op)

PIAX = [z3.Real("pi") > z3.RealVal("3.1415926535"), z3.Real("pi") < z3.RealVal("3.1415926536")]
_cache = {}

def relevant(facts, goal_fv):
    """facts connected to the goal by shared variables (sound to drop the others)"""
    keep, rest = [], list(facts)
    seen = set(goal_fv)
    ch = True
    while ch:
        ch = False
        nr = []
        for f in rest:
            if f.fv & seen:
                keep.append(f); seen |= f.fv; ch = True
            else: nr.append(f)
        rest = nr
    return keep

def check(facts, goal=None, timeout=2000, want_model=False):
    """unsat: facts entail goal (or are contradictory when goal is None)"""
    fs = [f for f in facts if f is not TRUE]
    if any(f is FALSE for f in fs): return "unsat", None
    if goal is TRUE: return "unsat", None
    if goal is not None and goal in fs: return "unsat", None
    if goal is not None: fs = relevant(fs, goal.fv)
    key = (tuple(sorted(f.id for f in set(fs))), goal.id if goal is not None else None)
    if not want_model and key in _cache:
        r, t0 = _cache[key]
        if r != "unknown" or t0 >= timeout: return r, None
    t0 = time.time()
    Z = Z3T()
    s = z3.Solver()
    s.set("timeout", timeout)
    try:
        zs = [Z.tr(f) for f in fs]
        if goal is not None: zs.append(z3.Not(Z.tr(goal)))
        for z in zs + Z.extra + PIAX: s.add(z)
        r = str(s.check())
    except (NotImplementedError, z3.Z3Exception) as e:
        r = "unknown"
    STATS["z3"] += 1
    STATS["z3_s"] += time.time() - t0
    _cache[key] = (r, timeout)
    m = None
    if r == "sat" and want_model:
        try: m = (s.model(), Z)
        except z3.Z3Exception: m = None
    return r, m

def entails(facts, goal, timeout=2000):
    if goal is TRUE: return True
    r, _ = check(facts, goal, timeout)
    return r == "unsat"
def feasible(facts, timeout=1000):
    r, _ = check(facts, None, timeout)
    return r != "unsat"

# ------------------------------------------------------------------ Rat -> term
def toterm(C, r):
    parts = []
    for m, v in r.n.items():
        fs = [atomterm(C, C.atoms[i], e) for i, e in C.fields(m).items()]
        parts.append(tm.mul(tm.num(Fraction(v, r.c)), *fs))
    t = tm.add(tm.ZERO, *parts)
    for f, e in r.d:
        t = tm.div(t, tm.pw(toterm(C, nfm.Rat(C.factors[f][0], 1)), e))
    return t
def toint(C, r):
    """an integer-sorted term when the normal form is an integer combination"""
    if r.c != 1 or r.d: raise nfm.NFError("not an integer term")
    parts = []
    for m, v in r.n.items():
        xs = [tm.num(v, "I")]
        for i, e in C.fields(m).items():
            a = C.atoms[i]
            if e < 0: raise nfm.NFError("not an integer term")
            x = atomterm(C, a, 1)
            if x.op == "i2r": x = x.a[0]
            if x.s != "I": raise nfm.NFError("not an integer term")
            xs += [x] * e
        parts.append(tm.mul(*xs))
    return tm.add(tm.num(0, "I"), *parts)
def atomterm(C, a, e):
    k = a.kind
    if k == "var": b = a.extra
    elif k == "sel":
        kk = a.name
        i = toint(C, a.args[0])
        if kk[0] == "av" or kk[0] == "arr": b = tm.sel(kk[1], i)
        else: raise nfm.NFError("sel of lam")
    elif k in ("abs", "sqrt", "log", "exp"):
        x = toterm(C, a.args[0])
        if k == "log": x = tm.absr(x)
        if k == "exp" and a.extra: x = tm.mul(tm.num(Fraction(1, nfm.EXPL)), x)
        b = tm.fn(k, x)
    elif k == "fn": b = tm.fn(a.name, *[argterm(C, x) for x in a.args])
    elif k == "ifn": b = tm.ifn(a.name, *[argterm(C, x) for x in a.args])
    elif k == "idiv": b = tm.idiv(toint(C, a.args[0]), toint(C, a.args[1]))
    elif k == "imod": b = tm.imod(toint(C, a.args[0]), toint(C, a.args[1]))
    elif k == "ite": b = a.extra
    elif k == "base": return tm.pw(toterm(C, a.args[0]), e)
    elif k == "inv": return tm.pw(toterm(C, a.args[0]), -e)
    elif k == "cnt":
        lo, hi = toint(C, a.args[0]), toint(C, a.args[1])
        b = tm.ite(tm.lt(lo, hi), tm.sub(hi, lo), tm.num(0, "I"))
    elif k == "sum":
        bv = a.name[1]
        b = tm.sum_b(bv, toint(C, a.args[1]), toint(C, a.args[2]), toterm(C, a.args[0]))
    else: raise nfm.NFError("toterm " + k)
    if e == 1: return b
    return tm.pw(tm.lift(b, "R"), e)
def argterm(C, x):
    try: return toint(C, x)
    except nfm.NFError: return toterm(C, x)

# ------------------------------------------------------------------ equality
class Undecided(Exception):
    def __init__(self, why, facts=(), diff=None):
        Exception.__init__(self, why)
        self.facts, self.diff = facts, diff

def outer_ites(t, acc, seen):
    """ites outside binders; conditions are looked into first"""
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if not x.hite and x.op != "ite": continue
        if x.op == "ite":
            acc.append(x)
        if x.op in ("sum", "lam", "all"):
            for y in x.a[2:]:
                if y.__class__ is tm.T: st.append(y)
            continue
        for y in x.a:
            if y.__class__ is tm.T: st.append(y)

def outer_sums(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "sum": out.append(x); continue
        if x.op in ("lam", "all"): continue
        for y in x.a:
            if y.__class__ is tm.T: st.append(y)
    return sorted(out, key=lambda x: x.id)

def atoms_of(c, out):
    if c.op in ("and", "or", "not"):
        for x in c.a: atoms_of(x, out)
    else: out.append(c)

class EqProver(object):
    def __init__(self, facts, pos=(), max_leaves=6000, deadline=None, posfun=None, lemmas=(), ctx=None, z3_real=True):
        self.facts = list(facts)
        self.C = ctx or nfm.Ctx(pos=pos)
        if ctx is None: self.C.posfun = posfun
        self.leaves = 0
        self.max_leaves = max_leaves
        self.deadline = deadline
        self.splits = 0
        self.lemmas = list(lemmas)
        self.intvars = ()
        self.depth = 0
        self.depth2 = 0
        self.congruence = True
        self.first = None
        self.toobig = False
        self.sumvar = {}
        self.keys = {}
    def prove(self, a, b):
        """raises Undecided (with the residual) when not proved"""
        t0 = time.time()
        STATS["eq"] += 1
        try:
            try: self.go(tm.lift(a), tm.lift(b), self.facts)
            except Undecided as x:
                if not self.toobig or str(x) == "time": raise
                # again with denominators kept as unknowns
                self.C = nfm.Ctx(pos=self.C.pos)
                self.C.posfun, self.C.opaque_inv = None, True
                self.leaves = self.splits = self.depth = self.depth2 = 0
                self.sumvar, self.keys = {}, {}
                try: self.go(tm.lift(a), tm.lift(b), self.facts)
                except Undecided: raise x
        finally: STATS["eq_s"] += time.time() - t0
        return True
    def big(self, facts):
        self.toobig = True
        return Undecided("expression too large", facts)
    def congr(self, a, b, facts, sa, sb):
        """sums are treated as unknowns; equal ones are matched body by body, the rest must agree linearly"""
        C = self.C
        m, vs = {}, {}
        for s in sa + sb:
            if s not in m:
                v = self.sumvar.get(s)
                if v is None: v = self.sumvar[s] = tm.fresh("S", "R")
                m[s] = v; vs[v] = s
        a2, b2 = tm.subst(a, m), tm.subst(b, m)
        acc, seen = [], set()
        outer_ites(a2, acc, seen); outer_ites(b2, acc, seen)
        if acc:
            # conditions outside the sums are split first
            conds = []
            for x in acc: atoms_of(x.a[0], conds)
            conds = [c for c in conds if not c.hite or not any(y.hite for y in c.a if y.__class__ is tm.T)] or conds
            conds = [c for c in conds if not (c.fv & set(vs))]
            if not conds: raise Undecided("condition on a sum", facts)
            c = min(set(conds), key=lambda c: (c.hite, c.s, c.id))
            v = self.decide(c, facts)
            for val in ((True, False) if v is None else (v,)):
                f = c if val else tm.not_(c)
                nf_ = facts if f in facts else facts + [f]
                if v is None and not self.maybe_feasible(facts, f): continue
                mm = {c: TRUE if val else FALSE}
                x, y = tm.subst(a, mm), tm.subst(b, mm)
                if val and c.op == "eq":
                    s = self.eqsubst(c)
                    if s: x, y = tm.subst(x, s), tm.subst(y, s)
                self.splits += 1
                if self.splits > self.max_leaves: raise Undecided("too many cases", facts)
                self.go(x, y, nf_)
            return
        def diff():
            try: d = C.sub(C.nf(a2), C.nf(b2))
            except nfm.TooBig: raise self.big(facts)
            except nfm.NFError as e: raise Undecided("normal form: %s" % e, facts)
            return d
        d = diff()
        if not d.n: return
        if not feasible(facts, 1500): return
        def rng(s):
            try: return (C.fp(C.nf(s.a[2])), C.fp(C.nf(s.a[3])))
            except nfm.NFError: return (s.a[2].id, s.a[3].id)
        def bodyat(s, pv): return tm.subst(s.a[1], {s.a[0]: pv})
        # match sums one by one
        own = [s for s in sa if s not in sb and m[s] in a2.fv]
        oth = [s for s in sb if s not in sa]
        nonlin = self.nonlinear(d, vs)
        single = len(own) == 1 and len(oth) == 1 and not nonlin
        if not single:
            for s in own:
                for w in oth:
                    if rng(s) != rng(w): continue
                    pv = tm.fresh("p", "I")
                    self.depth2 += 1
                    try:
                        self.go(bodyat(s, pv), bodyat(w, pv), facts + [tm.le(s.a[2], pv), tm.lt(pv, s.a[3])])
                        b2 = tm.subst(b2, {m[w]: m[s]})
                        oth.remove(w)
                        break
                    except Undecided as x:
                        if str(x) == "time": raise
                    finally: self.depth2 -= 1
            d = diff()
            if not d.n: return
        if self.nonlinear(d, vs): raise Undecided("residual not linear in the sums: " + C.show(d), facts, d)
        # linear: per range, the sides must agree
        inv = {}
        for v in vs: inv[self.atom_of(v)] = v
        groups, rest = {}, {}
        for mon, val in d.n.items():
            hit = [i for i in C.fields(mon) if i in inv]
            if not hit: rest[mon] = val
            else:
                v = inv[hit[0]]
                groups.setdefault(rng(vs[v]), {}).setdefault(v, {})[mon - C.am(C.atoms[hit[0]])] = val
        if rest: raise Undecided("residual outside the sums: " + C.show(d), facts, d)
        if not groups: raise Undecided("residual: " + C.show(d), facts, d)
        self.depth2 += 1
        try:
            for g in groups.values():
                pv = tm.fresh("p", "I")
                l, r = tm.ZERO, tm.ZERO
                for i, (v, n) in enumerate(sorted(g.items(), key=lambda x: x[0].id)):
                    s = vs[v]
                    if i == 0:
                        rg = [tm.le(s.a[2], pv), tm.lt(pv, s.a[3])]
                        l = tm.mul(toterm(C, nfm.Rat(dict(n), d.c, ())), bodyat(s, pv))
                    else: r = tm.sub(r, tm.mul(toterm(C, nfm.Rat(dict(n), d.c, ())), bodyat(s, pv)))
                self.go(l, r, facts + rg)
        finally: self.depth2 -= 1
    def atom_of(self, v):
        (m,) = self.C.nf(v).n
        return next(iter(self.C.fields(m)))
    def nonlinear(self, d, vs):
        C = self.C
        ids = set(self.atom_of(v) for v in vs)
        for mon in d.n:
            hs = [(i, e) for i, e in C.fields(mon).items() if i in ids]
            if len(hs) > 1 or any(e != 1 for _, e in hs): return True
            for i, e in C.fields(mon).items():
                if i not in ids and C.atoms[i].fv & set(vs): return True
        for f, e in d.d:
            for mon in C.factors[f][0]:
                for i in C.fields(mon):
                    if i in ids or C.atoms[i].fv & set(vs): return True
        return False
    def ckey(self, c):
        """conditions with the same key are equivalent"""
        if c.op not in ("lt", "eq") or c.hite: return None
        if c in self.keys: return self.keys[c]
        k = None
        try:
            r = self.C.sub(self.C.nf(tm.lift(c.a[1], "R") if c.a[1].s == "R" else c.a[1]), self.C.nf(c.a[0]))
            if r.n:
                lead = max(r.n)
                v = Fraction(r.n[lead], r.c)
                s = abs(v) if c.op == "lt" else v
                k = (c.op, self.C.fp(self.C.scale(r, 1 / s)))
        except (nfm.TooBig, nfm.NFError): pass
        self.keys[c] = k
        return k
    def decide(self, c, facts):
        """truth of an atom under facts, or None"""
        if c in facts: return True
        if tm.not_(c) in facts: return False
        k = self.ckey(c)
        if k is not None:
            for f in facts:
                if f.op == "not":
                    if self.ckey(f.a[0]) == k: return False
                elif f.op in ("lt", "eq") and self.ckey(f) == k: return True
        if c.op in ("lt", "eq") :
            to = 300 if c.a[0].s == "I" else 400
            if entails(facts, c, to): return True
            if entails(facts, tm.not_(c), to): return False
        elif c.op in ("bfn", "var", "all"):
            if entails(facts, c, 300): return True
            if entails(facts, tm.not_(c), 300): return False
        return None
    def go(self, a, b, facts):
        if a is b: return
        if self.deadline and time.time() > self.deadline: raise Undecided("time", facts)
        C = self.C
        if self.congruence:
            sa, sb = outer_sums(a), outer_sums(b)
            if sa or sb:
                try: return self.congr(a, b, facts, sa, sb)
                except Undecided as x:
                    if self.depth2: raise
                    self.first = self.first or x
        try:
            if C.equal(C.nf(a), C.nf(b)): return
        except nfm.TooBig: raise self.big(facts)
        except nfm.NFError as e:
            if not (a.hite or b.hite): raise Undecided("normal form: %s" % e, facts)
        # case split on an outer condition
        acc, seen = [], set()
        outer_ites(a, acc, seen); outer_ites(b, acc, seen)
        if acc:
            conds = []
            for x in acc: atoms_of(x.a[0], conds)
            conds = [c for c in conds if not c.hite or not any(y.hite for y in c.a if y.__class__ is tm.T)] or conds
            c = min(set(conds), key=lambda c: (c.hite, c.s, c.id))
            v = self.decide(c, facts)
            for val in ((True, False) if v is None else (v,)):
                f = c if val else tm.not_(c)
                nf_ = facts if f in facts else facts + [f]
                if v is None and not self.maybe_feasible(facts, f): continue
                m = {c: TRUE if val else FALSE}
                a2, b2 = tm.subst(a, m), tm.subst(b, m)
                if val and c.op == "eq":
                    s = self.eqsubst(c)
                    if s: a2, b2 = tm.subst(a2, s), tm.subst(b2, s)
                self.splits += 1
                if self.splits > self.max_leaves: raise Undecided("too many cases", facts)
                self.go(a2, b2, nf_)
            return
        self.leaf(a, b, facts)
    def maybe_feasible(self, facts, f):
        r, _ = check(facts, tm.not_(f), 500)
        return r != "unsat"
    def eqsubst(self, c):
        x, y = c.a
        for u, v in ((x, y), (y, x)):
            if u.op == "var" and u not in v.fv and not u.a[0].startswith(("#", "@")): return {u: v}
        return None
    def leaf(self, a, b, facts):
        self.leaves += 1
        C = self.C
        if not feasible(facts, 1500): return
        # integer unification (loop exit indices against ghost indices)
        ivs = sorted((v for v in (a.fv | b.fv) if v.s == "I"), key=lambda v: v.id)
        for (u, w) in self.lemmas:
            a2, b2 = tm.subst(a, {u: w}), tm.subst(b, {u: w})
            if (a2 is not a or b2 is not b) and entails(facts, tm.eq(u, w), 3000): return self.go(a2, b2, facts)
        try:
            d = C.sub(C.nf(a), C.nf(b))
        except nfm.TooBig: raise self.big(facts)
        except nfm.NFError as e:
            raise Undecided("normal form: %s" % e, facts)
        if not d.n: return
        # equalities between integer indices forced by the facts
        self.sums(d, facts, a, b)
    def sums(self, d, facts, a, b):
        C = self.C
        groups, rest = {}, {}
        for m, v in d.n.items():
            fl = C.fields(m)
            sm = [(i, e) for i, e in fl.items() if C.atoms[i].kind in ("sum", "cnt")]
            if len(sm) == 0: rest[m] = v
            elif len(sm) == 1 and sm[0][1] == 1:
                at = C.atoms[sm[0][0]]
                ends = at.args[1:] if at.kind == "sum" else at.args
                key = (C.fp(ends[0]), C.fp(ends[1]))
                groups.setdefault(key, [ends, []])[1].append((m - C.am(at), v, at))
            else: raise Undecided("residual not linear in the sums: " + C.show(d), facts, d)
        for f, e in d.d:
            for m in C.factors[f][0]:
                for i in C.fields(m):
                    if C.atoms[i].kind in ("sum", "cnt"): raise Undecided("sum in a denominator", facts, d)
        if rest: raise Undecided("residual: " + C.show(nfm.Rat(rest, d.c, d.d)), facts, d)
        if not groups: raise Undecided("residual: " + C.show(d), facts, d)
        self.depth += 1
        if self.depth > 12: raise Undecided("nesting", facts, d)
        for key, (ends, lst) in groups.items():
            lo, hi = toint(C, ends[0]), toint(C, ends[1])
            pv = tm.fresh("p", "I")
            body = []
            single = None
            for m, v, at in lst:
                coef = toterm(C, nfm.Rat({m: v}, 1))
                if at.kind == "cnt": body.append(coef); continue
                bt = tm.subst(toterm(C, at.args[0]), {at.name[1]: pv})
                body.append(tm.mul(coef, bt))
            tot = tm.add(tm.ZERO, *body)
            f2 = facts + [tm.le(lo, pv), tm.lt(pv, hi)]
            self.go(tot, tm.ZERO, f2)
        self.depth -= 1
