"""A contract is a driver: a sequence of calls of library functions on declared inputs, with preconditions and
postconditions.  The same driver text is executed (a) by the verification-condition generator on the real
sources, where every declared input is a symbol, and (b) on the compiled library, where the inputs are sampled
(replay of counterexamples, and the bounded stand-in for obligations the prover leaves undecided)."""
import ctypes, math, os, shutil, sys, tempfile, time, pickle, random, signal, traceback, multiprocessing
import terms as tm
from terms import T, TRUE, FALSE
import symexec as sx
from symexec import Ptr, Ar, St, State, Exec, Unsupported, OPQ
import solve, nf

DBL, SZ = ctypes.c_double, ctypes.c_size_t

class Handle(object):
    """a declared array"""
    def __init__(self, D, name, n, es): self.D, self.name, self.n, self.es = D, name, n, es
    vals = None
    def __getitem__(self, i):
        if self.vals is not None and isinstance(i, int): return self.vals[i]
        return tm.sel(tm.avar(self.name, self.es), tm.lift(i, "I"))
    def at(self, off): return Slice(self, tm.lift(off, "I"))
class Slice(object):
    def __init__(self, h, off): self.h, self.off = h, off
class Table(object):
    """a Pk structure passed by value"""
    def __init__(self, nk, k, pk): self.nk, self.k, self.pk = nk, k, pk
class Record(object):
    """a structure of the library, passed by address"""
    def __init__(self, name, ty): self.name, self.ty = name, ty
class FnRef(object):
    def __init__(self, name): self.name = name

class Reject(Exception): pass

class Startup(object):
    """a second copy of the library, as it is when a program starts; the first one comes back at the end"""
    def __init__(self, D): self.D = D
class SymStartup(Startup):
    def __enter__(self):
        D, E = self.D, self.D.E
        self.old = D.st
        st = State()
        st.facts, st.guards = D.st.facts, D.st.guards
        for u in D.P.units.values():
            for g in u["gvs"].values():
                if g.extern and not g.static: continue
                try: obj = E.gobj(g.name, g.file)
                except Unsupported: continue
                if obj in st.mem: continue
                try: st.mem[obj] = E.initval(g.init, g.ty, st, g.file) if g.init is not None else E.zero(st, g.ty)
                except Unsupported: continue
                E.types.setdefault(obj, g.ty)
        for h in D.arrs.values():
            if h in D.st.mem: st.mem[h] = D.st.mem[h]
        D.st = st
    def __exit__(self, *a):
        D = self.D
        self.old.facts, self.old.guards = D.st.facts, D.st.guards
        for h in D.arrs.values():
            if h in D.st.mem: self.old.mem[h] = D.st.mem[h]
        D.st = self.old
        return False
class RealStartup(Startup):
    def __enter__(self):
        import shutil, tempfile
        D = self.D
        self.old = D.lib
        f = tempfile.NamedTemporaryFile(suffix=".so", delete=False)
        f.close()
        shutil.copy(D.lib._name, f.name)
        D.lib = ctypes.CDLL(f.name)
        os.unlink(f.name)
        D.keep.append(D.lib)
    def __exit__(self, *a):
        self.D.lib = self.old
        return False

class Ens(object):
    by = true = None
    def __init__(self, label, a, b, facts, rtol, atol, pos, lemmas, deadline, quant=None):
        self.label, self.a, self.b, self.facts = label, a, b, facts
        self.rtol, self.atol, self.pos, self.lemmas, self.deadline, self.quant = rtol, atol, pos, lemmas, deadline, quant

# ------------------------------------------------------------------ symbolic
class SymD(object):
    real_mode = False
    def __init__(self, prog, cuts, script, opts=None):
        self.E = Exec(prog, cuts, opts=opts)
        self.order = []
        self.E.script = script
        self.P = prog
        self.st = State()
        self.ens = []
        self.ranges = {}            # declared sampling ranges: where counterexamples can be replayed
        self.pos = set()
        self.lemmas = []
        self.nret = 0
        self.arrs = {}
        self.env = {}
        self.rtol, self.atol = 1e-7, 0.
        self.deadline = 120
    # declarations
    def real(self, name, lo=None, hi=None, log=False, pos=None, **kw):
        v = tm.var(name)
        self.ranges[name] = (v, lo, hi)
        if pos is None: pos = lo is not None and lo >= 0
        if pos:
            self.pos.add(v)
            self.require(tm.lt(tm.ZERO, v))
        return v
    def integer(self, name, lo=0, hi=10, sym=True, **kw):
        v = tm.var(name, "I")
        self.ranges[name] = (v, lo, hi)
        if lo is not None: self.require(tm.le(tm.num(lo, "I"), v))
        return v
    def array(self, name, n, gen=None, es="R"):
        n = tm.lift(n, "I")
        h = Handle(self, name, n, es)
        o = ("s", name, "double" if es == "R" else "int")
        self.E.inputs[o] = Ar(tm.avar(name, es), n)
        self.E.types[o] = o[2]
        self.arrs[name] = o
        h.ptr = Ptr(o)
        if getattr(gen, "increasing", False) and n is not None:      # for counterexamples: such an array increases
            a = tm.avar(name, es)
            self.order.append(tm.forall(tm.num(0, "I"), tm.sub(n, tm.num(1, "I")), lambda i: tm.lt(tm.sel(a, i), tm.sel(a, tm.add(i, tm.num(1, "I"))))))
        return h
    def built(self, name, vals):
        """an input array whose elements are given expressions of the other inputs"""
        h = self.array(name, len(vals))
        o = h.ptr.obj
        t = tm.avar(name)
        for i, v in enumerate(vals): t = tm.store(t, tm.num(i, "I"), tm.lift(v))
        self.E.inputs[o] = Ar(t, tm.num(len(vals), "I"))
        h.vals = [tm.lift(v) for v in vals]
        return h
    def filled(self, name, n, f, es="R"):
        """an input array whose element i is the expression f(i) of the other inputs"""
        h = self.array(name, n, es=es)
        o = h.ptr.obj
        self.E.inputs[o] = Ar(tm.lam(f), self.E.inputs[o].n)
        return h
    def record(self, name, ty, **fields):
        """a structure whose other fields hold anything"""
        r = Record(name, ty)
        r.obj = ("s", name, ty)
        if ty not in self.P.recs: raise Unsupported("no structure " + ty)
        v = self.E.undef(self.st, ty)
        for f, x in fields.items():
            if f not in v.f: raise Unsupported("no field " + f)
            v.f[f] = self.E.coerce(self.arg(x), dict(self.P.recs[ty])[f])
        self.st.mem[r.obj] = v
        self.E.types[r.obj] = ty
        return r
    def field(self, r, f):
        v = self.E.root(self.st, r.obj).f[f]
        return self.E.simp(self.st, v)
    def item(self, r, f, i):
        """element i of the array a field points to"""
        p = self.E.root(self.st, r.obj).f[f]
        if not isinstance(p, Ptr): raise Unsupported("field %s is no array" % f)
        return self.E.simp(self.st, self.E.load(self.st, Ptr(p.obj, p.path, tm.add(p.off, tm.lift(i, "I")))))
    def startup(self): return SymStartup(self)
    def require(self, t):
        if t is not TRUE: self.st.facts = self.st.facts + (t,)
    def string(self, s): return s
    def arg(self, a):
        if isinstance(a, Handle): return a.ptr
        if isinstance(a, Slice): return Ptr(a.h.ptr.obj, (), a.off)
        if isinstance(a, str): return self.E.strid(a)
        if isinstance(a, bool): return tm.num(int(a), "I")
        if isinstance(a, int): return tm.num(a, "I")
        if isinstance(a, float): return tm.lift(a)
        if isinstance(a, Table): return St({"nk": tm.lift(a.nk, "I"), "k": a.k.ptr, "pk": a.pk.ptr})
        if isinstance(a, Record): return Ptr(a.obj)
        if isinstance(a, FnRef):
            f = self.P.fn(a.name) or self.P.find(a.name)
            if f is None: raise Unsupported("no function " + a.name)
            return sx.FnPtr(f)
        return a
    def has(self, name): return (self.P.fn(name)) is not None
    def call(self, name, *args):
        f = self.P.fn(name)
        if f is None or f.body is None: raise Unsupported("no function " + name)
        E = self.E
        fr = sx.Frame()
        vals = [self.arg(a) for a in args]
        if len(vals) != len(f.params): raise Unsupported("%s takes %d arguments" % (name, len(f.params)))
        vals = [E.coerce(v, ty) if isinstance(v, T) else v for v, (_, ty, _) in zip(vals, f.params)]
        r = E.call(f, vals, self.st)
        return r
    def out(self, h, i):
        v = self.E.root(self.st, h.ptr.obj)
        return self.E.simp(self.st, tm.sel(v.t, tm.lift(i, "I")))
    def glob(self, name):
        """the value of a library-wide integer"""
        for u in self.P.units.values():
            for g in u["gvs"].values():
                if g.name == name and g.init is not None or g.name == name and not g.extern: return self.E.root(self.st, self.E.gobj(name, g.file))
        raise Unsupported("no variable " + name)
    def ensure(self, label, a, b, rtol=None, atol=None, lemmas=(), facts=(), true=None, ghost=None):
        if ghost is not None:
            fs, lm = self.instances((tm.lift(a), tm.lift(b)), list(self.st.ctx()) + list(facts), ghost)
            facts, lemmas = list(facts) + fs, list(lemmas) + lm
        self.ens.append(Ens(label, tm.lift(a), tm.lift(b), self.st.ctx() + list(facts), self.rtol if rtol is None else rtol, self.atol if atol is None else atol, set(self.pos), list(self.lemmas) + list(lemmas), self.deadline))
        self.ens[-1].true = true
    def expands(self, label, a, b, point=None, upto=1, order=1, rtol=1e-6, atol=None):
        """a is b, or (with a point: variable -> (name or None, power of the small quantity, factor)) the terms of b in the
        small quantity before the power `upto`; b has logarithms and square roots"""
        e = Ens(label, tm.lift(a), tm.lift(b), self.st.ctx(), rtol, atol, set(self.pos), [], self.deadline)
        e.by = (dict(point or {}), upto, order)
        self.ens.append(e)
    def instances(self, ts, facts, ghost):
        """what is known of the loop exits that occur in the terms: the facts recorded for them, the quantified ones at
        these exits and at the ghost indices; a loop exit may turn out to be a ghost index"""
        E, ex, out = self.E, [], []
        ends = set(getattr(E, "exits", ()))
        todo, seen = list(ts), set()
        while todo:
            t = todo.pop()
            for x in tm.subterms(t):
                if x in seen: continue
                seen.add(x)
                if x in ends and x.op == "var": ex.append(x)
                if x.op == "ifn" and x.a[0] in E.tmpl and not x.bh and not any(v.a[0].startswith(("#", "@")) for v in x.fv):
                    ps, fs = E.tmpl[x.a[0]]
                    ex.append(x)
                    m = dict(zip(ps, x.a[1:]))
                    for f in fs:
                        f = tm.subst(f, m)
                        out.append(f); todo.append(f)
        for nm, (ps, fs) in E.tmpl.items():
            if nm.startswith("while") and len(ps) == 1:
                for g in ghost: out += [tm.subst(f, {ps[0]: tm.lift(g, "I")}) for f in fs]
        idx = []
        for c in list(ghost) + ex:
            c = tm.lift(c, "I")
            for d in (c, tm.add(c, tm.num(1, "I")), tm.sub(c, tm.num(1, "I"))):
                if d not in idx: idx.append(d)
        for f in list(facts) + out:
            if f.op != "all": continue
            b, body, lo, hi = f.a
            for c in idx: out.append(tm.implies(tm.and_(tm.le(lo, c), tm.lt(c, hi)), tm.subst(body, {b: c})))
        return out, [(e, tm.lift(g, "I")) for e in ex for g in ghost] + [(ex[i], ex[j]) for i in range(len(ex)) for j in range(i) if ex[i] is not ex[j]]
    def ensure_all(self, label, n, f, rtol=None, atol=None, lemmas=None, lo=0):
        i = tm.fresh("i", "I")
        n = tm.lift(n, "I")
        s0 = self.st
        self.st = s0.copy()
        fs = [tm.le(tm.num(lo, "I"), i), tm.lt(i, n)]
        self.st.facts = self.st.facts + tuple(fs)
        try:
            a, b = f(i)
            lm = list(self.lemmas) + (list(lemmas(i)) if lemmas else [])
            self.ens.append(Ens(label, tm.lift(a), tm.lift(b), self.st.ctx(), self.rtol if rtol is None else rtol, self.atol if atol is None else atol, set(self.pos), lm, self.deadline))
        finally: self.st = s0
    def prove(self, label, cond, facts=(), ghost=None):
        """a boolean postcondition"""
        if ghost is not None: facts = list(facts) + self.instances((cond,), list(self.st.ctx()) + list(facts), ghost)[0]
        self.ens.append(Ens(label, cond, TRUE, self.st.ctx() + list(facts), None, None, set(self.pos), list(self.lemmas), self.deadline))
    def freed(self):
        """every block allocated by the library during the driver has been released"""
        for o, al in self.st.alive.items():
            if o[0] == "h": 
                self.E.obls.append(sx.Obl("leak", self.st.ctx(), tm.not_(al), "end of run"))
    def define(self, name, f): pass
    def val(self, t): raise RuntimeError
    def sample_only(self, f): pass

# ------------------------------------------------------------------ concrete
class RealD(object):
    real_mode = True
    def __init__(self, lib, prog, rng, funcs):
        self.lib, self.P, self.rng = lib, prog, rng
        self.env = dict(funcs(self) if callable(funcs) else funcs)
        self.anywhere = self.env.pop("anywhere", False)      # values of a refuted obligation: the sampling ranges do not matter
        self.given = self.env.pop("arrays", {})
        self.bufs = {}
        self.ens = []
        self.log = []
        self.rtol, self.atol = 1e-7, 0.
        self.nret = 0
        self.keep = []
        self.deadline = 0
        self.lemmas = []
        self.pos = set()
        self.st = None
        self.results = []
        self.retenv = {}
        self.report = None
        self.fixed = bool(self.env)
        self.live0 = int(lib.verif_live())
    def v(self, t, M=None):
        return tm.evaluate(tm.lift(t) if not isinstance(t, T) else t, self.env, M)
    def vmp(self, t):
        """the specification is evaluated with 40 digits"""
        t = tm.lift(t) if not isinstance(t, T) else t
        if t.s != "R": return self.v(t)
        import mpmath
        mpmath.mp.dps = 40
        env = {}
        for k, x in self.env.items():
            if isinstance(x, float): x = mpmath.mpf(x)
            elif isinstance(x, list): x = [mpmath.mpf(y) for y in x]
            elif callable(x): x = (lambda g: lambda *a: mpmath.mpf(g(*a)))(x)
            env[k] = x
        try: return float(tm.evaluate(t, env, mpmath.mp))
        except (OverflowError, ValueError, ZeroDivisionError): return float("nan")
    def real(self, name, lo=-2., hi=2., log=False, pos=None, pick=None, **kw):
        if name not in self.env:
            if pick: x = pick(self)
            else:
                if lo is None: lo = -2.
                if hi is None: hi = max(2., 2 * lo)
                if log or (lo > 0 and hi / lo > 50): x = math.exp(self.rng.uniform(math.log(lo), math.log(hi)))
                else: x = self.rng.uniform(lo, hi)
            self.env[name] = x
        elif self.fixed and not self.anywhere and not pick and ((lo is not None and self.env[name] < lo) or (hi is not None and self.env[name] > hi)): raise Reject()
        elif self.fixed and not self.anywhere and pick and ((lo is not None and self.env[name] < lo / 4) or (hi is not None and self.env[name] > hi * 4)): raise Reject()
        return tm.var(name)
    def integer(self, name, lo=0, hi=10, pick=None, **kw):
        if name not in self.env: self.env[name] = pick(self) if pick else self.rng.randint(lo, hi)
        return tm.var(name, "I")
    def array(self, name, n, gen=None, es="R"):
        N = int(self.v(tm.lift(n, "I")))
        if name not in self.env and len(self.given.get(name, ())) >= N > 0:
            xs = [float(x) for x in self.given[name][:N]]
            if getattr(gen, "increasing", False) and not (xs[0] > 0 and all(x < y for x, y in zip(xs, xs[1:]))): raise Reject()
            self.env[name] = xs
        if name not in self.env:
            self.env[name] = [float(x) for x in gen(self, N)] if gen else [self.rng.uniform(-1, 1) for _ in range(N)]
        vals = self.env[name]
        PAD = 8
        buf = ((DBL if es == "R" else ctypes.c_int) * (N + 2 * PAD))()
        for i in range(N + 2 * PAD): buf[i] = 7.77e77 if es == "R" else 77777
        for i, x in enumerate(vals): buf[PAD + i] = x
        h = Handle(self, name, tm.lift(n, "I"), es)
        h.buf, h.N, h.pad = buf, N, PAD
        h.addr = ctypes.addressof(buf) + 8 * PAD if es == "R" else ctypes.addressof(buf) + 4 * PAD
        self.bufs[name] = h
        return h
    def built(self, name, vals):
        return self.array(name, len(vals), lambda R_, n: [self.v(v) for v in vals])
    def filled(self, name, n, f, es="R"):
        self.env.pop(name, None)
        return self.array(name, n, lambda R_, N: [self.v(f(tm.num(i, "I"))) for i in range(N)], es)
    def record(self, name, ty, **fields):
        r = Record(name, ty)
        if ty not in self.P.recs: raise Unsupported("no structure " + ty)
        fl = [(f, ctypes.c_void_p if sx.is_ptr(t) else self.CT[sx.clean(t)]) for f, t in self.P.recs[ty]]
        r.cls = type(str(ty), (ctypes.Structure,), {"_fields_": fl})
        r.val = r.cls()
        ctypes.memset(ctypes.addressof(r.val), 0x5a, ctypes.sizeof(r.cls))
        for f, x in fields.items():
            if f not in dict(fl): raise Unsupported("no field " + f)
            x = self.v(x) if isinstance(x, T) else x
            setattr(r.val, f, x if dict(fl)[f] is DBL else int(x))
        return r
    def value(self, x, s):
        self.nret += 1
        nm = "val!%d" % self.nret
        self.env[nm] = x
        return tm.var(nm, s)
    def field(self, r, f):
        x = getattr(r.val, f)
        return self.value(x, "R" if isinstance(x, float) else "I")
    def item(self, r, f, i):
        p = ctypes.cast(getattr(r.val, f), ctypes.POINTER(DBL))
        return self.value(p[int(self.v(tm.lift(i, "I")))], "R")
    def startup(self): return RealStartup(self)
    def require(self, t):
        if not self.v(t): raise Reject()
    def string(self, s): return s
    CT = {"double": DBL, "histo_t": DBL, "unsigned long": SZ, "size_t": SZ, "long": ctypes.c_long, "int": ctypes.c_int,
          "unsigned int": ctypes.c_uint, "_Bool": ctypes.c_bool, "FLAG": ctypes.c_int, "INTERPOL": ctypes.c_int, "VERBOSITY": ctypes.c_int}
    def arg(self, a, ty):
        import realc
        ty = sx.clean(ty)
        if isinstance(a, Handle): return ctypes.c_void_p(a.addr)
        if isinstance(a, Record): return ctypes.byref(a.val)
        if isinstance(a, Slice): return ctypes.c_void_p(a.h.addr + 8 * int(self.v(a.off)))
        if isinstance(a, str): return ctypes.c_char_p(a.encode())
        if isinstance(a, Table): return realc.CPk(int(self.v(tm.lift(a.nk, "I"))), a.k.addr, a.pk.addr)
        if isinstance(a, FnRef): return ctypes.cast(getattr(self.lib, a.name), ctypes.c_void_p)
        ct = self.CT.get(ty)
        if ct is None: raise Unsupported("argument type " + ty)
        x = self.v(a) if isinstance(a, T) else a
        return ct(float(x) if ct is DBL else int(x))
    def has(self, name): return (self.P.fn(name)) is not None
    def call(self, name, *args):
        f = self.P.fn(name)
        if f is None: raise Unsupported("no function " + name)
        c = getattr(self.lib, name)
        rt = self.CT.get(sx.clean(f.ret))
        c.restype = rt
        vals = [self.arg(a, ty) for a, (_, ty, _) in zip(args, f.params)]
        self.log.append("%s(%s)" % (name, ", ".join(self.showarg(a) for a in args)))
        if self.report: self.report(self)
        r = c(*vals)
        for h in self.bufs.values():
            t = 7.77e77 if h.es == "R" else 77777
            for j in range(h.pad):
                if h.buf[j] != t or h.buf[h.pad + h.N + j] != t:
                    self.results.append(("bounds", "write outside array %s" % h.name, float("nan"), 0., False))
                    raise Reject()
        hc = self.lib.verif_heap_check
        hc.restype = ctypes.c_char_p
        e = hc()
        if e:
            self.results.append(("memory", "%s: %s" % (name, e.decode()), float("nan"), 0., False))
        if rt is None: return None
        self.nret += 1
        nm = "ret!%d" % self.nret
        self.env[nm] = float(r) if rt is DBL else int(r)
        return tm.var(nm, "R" if rt is DBL else "I")
    def glob(self, name):
        self.nret += 1
        nm = "glob!%d" % self.nret
        self.env[nm] = ctypes.c_int.in_dll(self.lib, name).value
        return tm.var(nm, "I")
    def showarg(self, a):
        if isinstance(a, (Handle, Record)): return a.name
        if isinstance(a, Slice): return "%s+%d" % (a.h.name, int(self.v(a.off)))
        if isinstance(a, T):
            try: return repr(self.v(a))
            except Exception: return tm.show(a)
        if isinstance(a, Table): return "Pk{%s,%s}" % (a.k.name, a.pk.name)
        if isinstance(a, FnRef): return a.name
        return repr(a)
    def out(self, h, i):
        x = int(self.v(tm.lift(i, "I")))
        nm = "out!%s!%d!%d" % (h.name, x, len(self.log))
        self.env[nm] = h.buf[h.pad + x]
        return tm.var(nm, h.es)
    def ensure(self, label, a, b, rtol=None, atol=None, lemmas=(), facts=(), true=None, ghost=None):
        if true is not None: b = true()
        x, y = self.v(a), self.vmp(b)
        self.judge(label, x, y, rtol, atol, b)
    def judge(self, label, x, y, rtol, atol, spec=None):
        rt = self.rtol if rtol is None else rtol
        at = self.atol if atol is None else atol
        if isinstance(at, T): at = abs(self.vmp(at))
        try: ok = (x == y) or abs(x - y) <= rt * max(abs(x), abs(y)) + at or (x != x and y != y)
        except TypeError: ok = x == y
        if y != y or y in (float("inf"), float("-inf")): ok = True     # the specification has no value here
        self.results.append(("ensures", label, x, y, bool(ok)))
    def expands(self, label, a, b, point=None, upto=1, order=1, rtol=1e-6, atol=None):
        import algebra
        x = self.v(a)
        if not point: return self.judge(label, x, self.vmp(b), rtol, atol)
        vals = {n: v for n, v in self.env.items() if isinstance(v, float)}
        y, size, rest = algebra.truncated(b, vals, point, upto, order)
        self.judge(label, x, y, 0., rtol * size + 4 * rest)
    def ensure_all(self, label, n, f, rtol=None, atol=None, lemmas=None, lo=0):
        N = int(self.v(tm.lift(n, "I")))
        idx = range(lo, N) if N - lo <= 12 else sorted(set([lo, lo + 1, N - 1, N - 2] + [self.rng.randrange(lo, N) for _ in range(8)]))
        for i in idx:
            a, b = f(tm.num(i, "I"))
            x, y = self.v(a), self.vmp(b)
            self.judge("%s[%d]" % (label, i), x, y, rtol, atol, b)
    def prove(self, label, cond, facts=(), ghost=None):
        ok = self.v(cond)
        self.results.append(("ensures", label, ok, True, bool(ok)))
    def freed(self):
        n = int(self.lib.verif_live())
        self.results.append(("memory", "blocks still allocated at the end of the run", n, self.live0, n <= self.live0))
    def define(self, name, f): self.env["fn:" + name] = f
    def sample_only(self, f):
        if not self.fixed: f(self)

def funcs_default(R): return {}

def child_run(conn, lib_path, prog, drv, case, seeds, funcs, tlimit, scratch):
    import ctypes
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.chdir(scratch)           # the library writes its debugging files where it runs
        signal.alarm(int(tlimit))
        lib = ctypes.CDLL(lib_path)
        for sd in seeds:
            rng = random.Random(sd)
            R = RealD(lib, prog, rng, funcs)
            R.seed = sd
            R.report = lambda r: conn.send(("at", sd, r.log[-1], small(r.env)))
            try:
                drv(R, **case)
                conn.send(("done", sd, R.results, R.log, small(R.env)))
            except Reject:
                conn.send(("done" if R.results else "reject", sd, R.results, R.log, small(R.env)))
            except (Unsupported, AttributeError) as e:
                conn.send(("error", sd, "%s" % e, traceback.format_exc()))
            except tm.EvalError as e:
                conn.send(("error", sd, "%s" % e, traceback.format_exc()))
            except Exception as e:
                conn.send(("error", sd, "%s %s" % (type(e).__name__, e), traceback.format_exc()))
        conn.send(("end",))
    except BaseException as e:
        try: conn.send(("error", None, repr(e), traceback.format_exc()))
        except Exception: pass
    finally:
        conn.close()
        os._exit(0)

def small(env):
    out = {}
    for k, v in env.items():
        if callable(v): continue
        if isinstance(v, list) and len(v) > 64: v = v[:64]
        out[k] = v
    return out

def run_real(lib_path, prog, drv, case, seeds, funcs, tlimit=120, maxfail=3):
    """[(seed, failures, log, env)], status"""
    ctx = multiprocessing.get_context("fork")
    a, b = ctx.Pipe(duplex=False)
    scratch = tempfile.mkdtemp(prefix="verif-run-")
    p = ctx.Process(target=child_run, args=(b, lib_path, prog, drv, case, list(seeds), funcs, tlimit, scratch))
    p.start()
    b.close()
    fails, done, rejected, errors, last = [], 0, 0, [], None
    nens = 0
    t0 = time.time()
    try:
        while True:
            if not a.poll(max(0.1, tlimit + 5 - (time.time() - t0))): errors.append("timeout"); break
            try: m = a.recv()
            except EOFError: break
            if m[0] == "end": last = None; break
            if m[0] == "at": last = m; continue
            if m[0] == "done":
                done += 1
                last = None
                nens += len(m[2])
                bad = [r for r in m[2] if not r[4]]
                if bad: fails.append((m[1], bad, m[3], m[4]))
                if len(fails) >= maxfail: last = None; break
            elif m[0] == "reject": rejected += 1; last = None
            elif m[0] == "error": errors.append(m[2]); last = None
    finally:
        p.join(2) if p.is_alive() else None
        if p.is_alive(): p.kill()
        p.join()
        a.close()
        shutil.rmtree(scratch, ignore_errors=True)
    if last is not None and p.exitcode not in (0, None) :
        if p.exitcode == -signal.SIGALRM: errors.append("time limit in " + last[2])
        else: fails.append((last[1], [("crash", "%s killed the process (%s)" % (last[2], p.exitcode), float("nan"), 0., False)], [last[2]], last[3]))
    return dict(fails=fails, done=done, rejected=rejected, errors=errors, nens=nens)
