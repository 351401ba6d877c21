"""Counterexamples of undecided postconditions: values of the inputs (and of what the obligation leaves free: the results
of functions known by contract only, the values after loops without closed form) which satisfy every assumption of the
obligation numerically, with the real logarithm, exponential and square root, and at which the two sides differ."""
import math, random, time
from fractions import Fraction
import z3, mpmath
import terms as tm, solve, refs
from terms import T, TRUE, FALSE

MP = mpmath.mp
BUILTIN = ("log", "exp", "sqrt", "abs", "sin", "cos", "powr")

class Refuted(object):
    def __init__(self, env, text): self.env, self.text = env, text

def free_vars(ts):
    out = set()
    for t in ts: out |= t.fv
    return [v for v in out if v.s in ("I", "R", "B") and v.a[0] != "pi" and not v.a[0].startswith("#")], [v for v in out if v.s[0] == "A"]

def expand(t, top, memo):
    """quantifiers are written out over 0 .. top"""
    r = memo.get(t)
    if r is not None: return r
    if t.op == "all":
        b, body, lo, hi = t.a
        parts = []
        a, z = -1, top + 1
        if lo.op == "num": a = max(a, lo.a[0])
        if hi.op == "num": z = min(z, hi.a[0])
        for j in range(a, z):
            n = tm.num(j, "I")
            parts.append(tm.implies(tm.and_(tm.le(lo, n), tm.lt(n, hi)), expand(tm.subst(body, {b: n}), top, memo)))
        r = tm.and_(*parts)
    elif t.op in ("not", "and", "or"): r = tm.rebuild(t, [expand(x, top, memo) for x in t.a])
    else: r = t
    memo[t] = r
    return r

def outer(t): return [x for x in tm.subterms(t) if x.op == "fn" and (x.a[0] in BUILTIN or x.a[0] in ("GLx", "GLw")) and x.a[0] not in ("abs", "sqrt") and not x.bh and not any(v.a[0].startswith(("#", "@")) for v in x.fv)]
def rat(x): return z3.RealVal(str(Fraction(*mpmath.libmp.to_rational(MP.mpf(x)._mpf_))))
def rule(name):
    """the nodes and weights of the Gauss-Legendre rule are known"""
    if name not in ("GLx", "GLw"): return None
    g = getattr(refs, name)
    return lambda lo, hi, n, i: MP.mpf(float(g(lo, hi, n, i))) if 0 <= int(i) < int(n) else MP.mpf(0)

class Search(object):
    def __init__(self, a, b, facts, ranges, tmpl, rng, deadline):
        self.a, self.b, self.ranges, self.tmpl, self.rng, self.deadline = a, b, ranges, tmpl, rng, deadline
        self.facts = [f for f in dict.fromkeys(facts) if f is not TRUE]
    # --- a first model fixes the integers
    def integers(self, top, inrange):
        ground = [f for f in self.facts if not any(x.op == "all" for x in tm.subterms(f))]
        ext = []
        ivs, _ = free_vars(self.facts + [self.a, self.b])
        for v in ivs:
            if v.s != "I": continue
            lo, hi = -1, top
            if v.a[0] in self.ranges and inrange:
                _, l, h = self.ranges[v.a[0]]
                if l is not None: lo = l
                if h is not None: hi = min(h, top)
            if hi < lo: return None
            ext += [tm.le(tm.num(lo, "I"), v), tm.le(v, tm.num(hi, "I"))]
        if inrange:
            for v, lo, hi in self.ranges.values():
                if v.s != "R": continue
                if lo is not None: ext.append(tm.le(tm.lift(lo), v))
                if hi is not None: ext.append(tm.le(v, tm.lift(hi)))
        Z = solve.Z3T()
        s = z3.Solver(); s.set("timeout", 2500); s.set("random_seed", self.rng.randrange(1 << 20))
        try:
            zs = [Z.tr(f) for f in ground + ext]
            for z in zs + Z.extra + solve.PIAX: s.add(z)
            # any value will do: prefer some at random
            iv = [v for v in ivs if v.s == "I"]
            self.rng.shuffle(iv)
            if str(s.check()) != "sat": return None
            m = s.model()
            for v in iv[:12]:
                s.push()
                hi = top
                if v.a[0] in self.ranges and self.ranges[v.a[0]][2] is not None: hi = min(top, self.ranges[v.a[0]][2])
                s.add(Z.tr(v) == self.rng.randint(0, max(0, hi)))
                if str(s.check()) == "sat": m = s.model()
                else: s.pop()
            out = {}
            for v in iv:
                x = m.eval(Z.tr(v), model_completion=True)
                out[v] = tm.num(x.as_long(), "I")
            return out
        except (NotImplementedError, z3.Z3Exception, AttributeError): return None
    # --- then the reals, with everything written out
    conds = None
    far = 1e3
    def foreign(self, a, b):
        """conditions the code decides on and the specification does not know"""
        mine = tm.subterms(b)
        out = []
        # in a sum: at its first and second terms
        xs, todo, seen = set(), [a], set()
        while todo:
            t = todo.pop()
            for x in tm.subterms(t):
                if x in xs: continue
                xs.add(x)
                if x.op == "sum" and x not in mine and len(seen) < 12 and not any(v.a[0].startswith(("#", "@")) for v in x.fv):
                    seen.add(x)
                    for j in (0, 1): todo.append(tm.subst(x.a[1], {x.a[0]: tm.add(x.a[2], tm.num(j, "I"))}))
        for x in sorted(xs, key=lambda x: x.id):
            if x.op == "ite" and x not in mine:
                at = []
                solve.atoms_of(x.a[0], at)
                for c in at:
                    if c.op in ("lt", "eq", "bfn", "var") and not c.bh and not any(v.a[0].startswith(("#", "@")) for v in c.fv):
                        out += [c, tm.not_(c)]
        # those with numbers the specification does not mention come first
        nums = set(x.a[0] for x in mine if x.op == "num")
        def odd(c): return any(x.op == "num" and x.a[0] not in nums for x in tm.subterms(c))
        out = list(dict.fromkeys(out))
        self.rng.shuffle(out)
        return [c for c in out if odd(c)] + [c for c in out if not odd(c)]
    def reals(self, ints, top, inrange, want=None, semi=False):
        sub = dict(ints)
        memo, sm = {}, {}
        def grd(t): return expand(tm.subst(t, sub, sm), top, memo)
        fs = [grd(f) for f in self.facts]
        a, b = grd(self.a), grd(self.b)
        # what is known of the loop exits that occur
        seen, todo = set(), list(fs) + [a, b]
        done = set()
        while todo:
            t = todo.pop()
            for x in tm.subterms(t, None if not seen else None):
                if x in done: continue
                done.add(x)
                if x.op == "ifn" and x.a[0] in self.tmpl and not x.bh and not any(v.a[0].startswith(("#", "@")) for v in x.fv):
                    ps, tf = self.tmpl[x.a[0]]
                    m = dict(zip(ps, x.a[1:]))
                    for f in tf:
                        g = grd(tm.subst(f, m))
                        if g not in done: fs.append(g); todo.append(g)
        fs = [f for f in dict.fromkeys(fs) if f is not TRUE]
        if any(f is FALSE for f in fs): return None
        sv, av = free_vars(fs + [a, b])
        Z = solve.Z3T()
        s = z3.Solver(); s.set("timeout", 2500)
        zs = [Z.tr(f) for f in fs]
        for z in zs + Z.extra + solve.PIAX: s.add(z)
        if inrange:
            for v, lo, hi in self.ranges.values():
                if v.s != "R": continue
                if lo is not None: s.add(Z.tr(v) >= Z.tr(tm.lift(lo)))
                if hi is not None: s.add(Z.tr(v) <= Z.tr(tm.lift(hi)))
        if self.conds is None: self.conds = self.foreign(a, b)
        if want is not None:
            if want >= len(self.conds): return None
            s.add(Z.tr(self.conds[want]))
        idx = range(-1, top + 2)
        self.base, self.Z = list(s.assertions()), Z
        if semi:
            for turn in range(4):
                m = self.drawn(fs, inrange)
                if m is False or time.time() > self.deadline: return None
                if m is not None: return self.values(m, ints, fs, a, b, sv, av, idx, want)
            return None
        if str(s.check()) != "sat": return None
        self.model = s.model()
        props = []
        for v in sv:
            if v.s == "R":
                x = self.draw(v, inrange)
                props.append(Z.tr(v) == z3.RealVal("%.6f" % x if abs(x) > 0.01 else "%.9f" % x))
        for v in av:
            base, r = self.rng.uniform(0.05, 0.5), self.rng.uniform(1.05, 1.5)
            for i in idx:
                if v.s == "AR":
                    x = base * r ** i * self.rng.uniform(1, 1 + 0.9 * (r - 1))
                    props.append(Z.tr(v)[i] == z3.RealVal("%.7f" % x))
        def pin(ps):
            if not ps or time.time() > self.deadline: return
            s.push()
            for p in ps: s.add(p)
            if str(s.check()) == "sat":
                self.model = s.model(); return
            s.pop()
            if len(ps) == 1: return
            h = len(ps) // 2
            pin(ps[:h]); pin(ps[h:])
        s.set("timeout", 800)
        pin(props)
        # values of functions known by contract only: the solver likes zeros, at which much vanishes
        if want is None or self.rng.random() < 0.7:
            used = set()
            for f in fs + ([self.conds[want]] if want is not None else []): used |= tm.subterms(f)
            used = [x for x in used if x.op == "fn" and x.a[0] not in BUILTIN and x.a[0] not in ("GLx", "GLw") and len(x.a) > 1 and not x.bh and not any(v.a[0].startswith(("#", "@")) for v in x.fv)]
            try: pin([Z.tr(x) == z3.RealVal("%.4f" % self.rng.uniform(0.05, 0.95)) for x in sorted(used, key=lambda x: x.id)[:24]])
            except (NotImplementedError, z3.Z3Exception): pass
        R = self.values(self.model, ints, fs, a, b, sv, av, idx, want)
        for turn in range(3):
            if time.time() > self.deadline: break
            m = self.refine(R, fs, sv)
            if m is None: break
            R = self.values(m, ints, fs, a, b, sv, av, idx, want)
        return R
    def draw(self, v, inrange):
        lo, hi = -1., 2.
        if v.a[0] in self.ranges:
            _, l, h = self.ranges[v.a[0]]
            lo = l if l is not None else (-2. if h is None else h - 4.); hi = h if h is not None else max(2., 2 * lo)
        elif self.rng.random() < 0.7: lo = 0.1
        if not inrange and lo > 0 and self.rng.random() < 0.6: lo, hi = lo / self.far, hi * self.far
        return math.exp(self.rng.uniform(math.log(lo), math.log(hi))) if lo > 0 and hi / lo > 50 else self.rng.uniform(lo, hi)
    def drawn(self, fs, inrange):
        """what logarithms, exponentials and the like depend on is drawn, their values are the true ones; the solver finds the rest"""
        xs = [x for x in dict.fromkeys(x for f in fs for x in outer(f)) if not any(v.s[0] == "A" for v in x.fv)]
        if not xs: return False
        env, memo = {}, {}
        s = z3.Solver(); s.set("timeout", 1500)
        for z in self.base: s.add(z)
        salt = self.rng.random()
        try:
            for v in sorted({v for x in xs for v in x.fv if v.s == "R" and v.a[0] != "pi"}, key=lambda v: v.id):
                q = "%.6g" % self.draw(v, inrange)
                env[v.a[0]] = MP.mpf(q)
                s.add(self.Z.tr(v) == z3.RealVal(str(Fraction(q))))
            apps = set()
            for x in xs:
                for y in tm.subterms(x):
                    if y.op == "fn" and y.a[0] not in BUILTIN: apps.add(y)
                    elif y.op in ("ifn", "bfn"): return False
            for y in apps: env["fn:" + y.a[0]] = rule(y.a[0]) or (lambda nm: lambda *a: MP.mpf("%.4f" % (0.05 + 0.9 * random.Random(repr((salt, nm) + tuple(round(float(z), 10) for z in a))).random())))(y.a[0])
            for x in xs + sorted(apps, key=lambda x: x.id): s.add(self.Z.tr(x) == rat(tm.evaluate(x, env, MP, memo)))
            return s.model() if str(s.check()) == "sat" else None
        except (tm.EvalError, TypeError, ValueError, ZeroDivisionError, OverflowError, KeyError, NotImplementedError, z3.Z3Exception): return None
    def refine(self, R, fs, sv):
        """the logarithms (exponentials, nodes of the rules...) the solver made up are replaced by the true ones: the variables they
        depend on keep their values, the others are solved for again"""
        env, memo = R[3], {}
        try: bad = [f for f in fs if not known(f, env, memo)]
        except (tm.EvalError, TypeError, ValueError, ZeroDivisionError, OverflowError, KeyError): return None
        if not bad: return None
        pins = set()
        for f in bad:
            for x in outer(f): pins |= {v for v in x.fv if v.s == "R" and v.a[0] != "pi"}
        if not pins: return None
        s = z3.Solver(); s.set("timeout", 2500)
        for z in self.base: s.add(z)
        try:
            for v in pins: s.add(self.Z.tr(v) == rat(env[v.a[0]]))
            for x in dict.fromkeys(x for f in fs for x in outer(f)):
                if {v for v in x.fv if v.s == "R" and v.a[0] != "pi"} <= pins and not any(v.s[0] == "A" for v in x.fv):
                    s.add(self.Z.tr(x) == rat(tm.evaluate(x, env, MP, memo)))
            if str(s.check()) != "sat": return None
            return s.model()
        except (tm.EvalError, TypeError, ValueError, ZeroDivisionError, OverflowError, KeyError, NotImplementedError, z3.Z3Exception): return None
    def values(self, m, ints, fs, a, b, sv, av, idx, want):
        Z = self.Z
        env = {}
        def val(z):
            x = m.eval(z, model_completion=True)
            if z3.is_int_value(x): return x.as_long()
            if z3.is_rational_value(x): return MP.mpf(x.numerator_as_long()) / x.denominator_as_long()
            if z3.is_algebraic_value(x): y = x.approx(30); return MP.mpf(y.numerator_as_long()) / y.denominator_as_long()
            if z3.is_true(x): return True
            if z3.is_false(x): return False
            raise ValueError("no value")
        for v, n in ints.items(): env[v.a[0]] = n.a[0]
        for v in sv: env[v.a[0]] = val(Z.tr(v))
        salt = self.rng.random()
        for v in av:
            d = {i: val(Z.tr(v)[i]) for i in idx}
            env[v.a[0]] = (lambda d, n: lambda i: d[i] if i in d else self.noise(salt, n, i))(d, v.a[0])
        # functions without a meaning of their own
        pins = {}
        names = {}
        for t in fs + [a, b]:
            for x in tm.subterms(t):
                if x.op in ("fn", "ifn", "bfn") and not (x.op == "fn" and x.a[0] in BUILTIN): names.setdefault(x.a[0], []).append(x)
        infacts = set()
        for t in fs + ([self.conds[want]] if want is not None else []): infacts |= tm.subterms(t)
        def call(name, op):
            if rule(name): return rule(name)
            def f(*args):
                k = (name, tuple(round(float(y), 10) for y in args))
                if k not in pins:
                    x = self.noise(salt, *k)
                    pins[k] = x if op == "fn" else int(x * 3) if op == "ifn" else x > 0.8
                return pins[k]
            return f
        for nm, xs in names.items(): env["fn:" + nm] = call(nm, xs[0].op)
        grd_ = [x for xs in names.values() for x in xs if not x.bh and not any(v.a[0].startswith(("#", "@")) for v in x.fv) and len(x.a) > 1 and x in infacts]
        for x in sorted(grd_, key=lambda x: x.id):
            try: k = (x.a[0], tuple(round(float(tm.evaluate(y, env, MP)), 10) for y in x.a[1:]))
            except (TypeError, tm.EvalError): continue
            if k not in pins:
                try: pins[k] = val(Z.tr(x))
                except ValueError: pass
        for nm, xs in names.items():
            if len(xs[0].a) == 1:
                try: w = val(Z.tr(xs[0]))
                except (ValueError, z3.Z3Exception): w = None
                if w is not None: env["fn:" + nm] = (lambda w: lambda: w)(w)
        return fs, a, b, env, av, sv
    def noise(self, salt, *a):
        return MP.mpf(0.3 + random.Random(repr((salt,) + a)).random())

DEBUG = False
def dbg(*a):
    if DEBUG: print("refute:", *a)
def known(f, env, memo):
    """a fact holds, clearly or exactly"""
    return bool(tm.evaluate(f, env, MP, memo))

def find(a, b, facts, ranges, tmpl, seed, deadline, rtol=0., atol=0., true=None, text=None):
    """a Refuted, or None"""
    MP.dps = 30
    rng = random.Random(seed)
    bad = 0
    plan = [(6, True), (6, False), (12, True), (80, True), (12, False), (120, False), (6, True), (6, False), (9, True), (6, True), (6, False)]
    none = set()
    def points():
        for top, inr in plan:
            if time.time() > deadline: return
            if (top, inr) in none: continue
            S = Search(a, b, facts, ranges, tmpl, rng, deadline)
            ints = S.integers(top, inr)
            if ints is None: none.add((top, inr)); dbg('no integers', top, inr); continue
            for want in [None] + [w for w in range(10) for _ in range(2)]:
                if time.time() > deadline or S.conds is not None and want is not None and want >= len(S.conds): break
                for semi in (True, False):
                    try: R = S.reals(ints, top if ints else 2, inr, want, semi)
                    except (NotImplementedError, z3.Z3Exception, ValueError) as x: R = None; dbg(repr(x))
                    dbg(top, inr, want, semi, R is not None, len(S.conds or ()))
                    if R is not None: yield top, ints, R
                if R is None and want is None: break
    for top, ints, R in points():
        fs, a2, b2, env, av, sv = R
        memo = {}
        try:
            bf = next((f for f in fs if not known(f, env, memo)), None)
            if bf is not None: dbg("assumption fails", tm.show(bf)[:200]); continue
            x = tm.evaluate(a2, env, MP, memo)
            if b is TRUE: ok, y = bool(x), True
            else:
                y = tm.evaluate(b2, env, MP, memo)
                w = y
                if true:
                    S2 = tm.subst(true(), dict(ints), {})
                    with MP.workdps(120): w = tm.evaluate(expand(S2, top, {}), env, MP, {})     # closed forms cancel
                if not all(isinstance(q, (int, float, MP.mpf, bool)) and MP.isfinite(q) for q in (x, w)): continue
                at = abs(tm.evaluate(atol, env, MP, memo)) if isinstance(atol, T) else atol or 0.
                ok = abs(x - w) <= max(2 * (rtol or 0.), 1e-9) * max(abs(x), abs(w)) + 2 * at
        except (tm.EvalError, TypeError, ValueError, ZeroDivisionError, OverflowError, KeyError) as z: dbg(repr(z)); continue
        dbg("sides", x, y, {k: w if isinstance(w, int) else float(w) for k, w in env.items() if not callable(w)})
        if ok: continue
        out = {}
        for v in list(ints) + sv:
            q = env[v.a[0]]
            out[v.a[0]] = q if isinstance(q, (int, bool)) else float(q)
        arrs = {}
        for v in av: arrs[v.a[0]] = [float(env[v.a[0]](i)) for i in range(0, min(top, 64))]
        t = "assumptions satisfied, the sides are %s and %s at %s" % (MP.nstr(x, 12) if not isinstance(x, bool) else x, MP.nstr(y, 12) if not isinstance(y, bool) else y,
             ", ".join("%s=%s" % (k, "%.6g" % w if isinstance(w, float) else w) for k, w in sorted(out.items()) if k in ranges or len(out) < 12)[:600])
        return Refuted((out, arrs), t)
    return None
