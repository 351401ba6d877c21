"""Verification-condition generator: symbolic execution of the real C functions (clang AST) over
mathematical reals and integers, with loops summarised exactly (closed forms, sums, array
comprehensions, first-exit indices) or abstracted, and callees replaced by contracts where given.

Loops are unrolled only when their trip count is a constant of the program; every other loop is summarised
for an arbitrary number of iterations.
"""
import re, sys
from fractions import Fraction
import terms as tm
from terms import T, TRUE, FALSE, IZERO, IONE, ZERO, ONE
import solve
from cfront import N

sys.setrecursionlimit(400000)

class Unsupported(Exception): pass
class Unmergeable(Exception): pass
class Restart(Exception): pass
class ExitSig(Exception): pass

TWO64 = 1 << 64
UNROLL = 70

# ------------------------------------------------------------------ values
class Ptr(object):
    __slots__ = ("obj", "path", "off")
    def __init__(self, obj, path=(), off=IZERO): self.obj, self.path, self.off = obj, path, off
    def __eq__(self, o): return isinstance(o, Ptr) and (self.obj, self.path, self.off) == (o.obj, o.path, o.off)
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash((self.obj, self.path, self.off))
    def __repr__(self): return "&%s%s[%s]" % (self.obj, self.path, self.off)
    def cell(self): return (self.obj, self.path)
NULL = Ptr(None)
class FnPtr(object):
    __slots__ = ("fn",)
    def __init__(self, fn): self.fn = fn
    def __eq__(self, o): return isinstance(o, FnPtr) and o.fn is self.fn
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.fn.name)
    def __repr__(self): return "fn:" + self.fn.name
class St(object):
    __slots__ = ("f",)
    def __init__(self, f): self.f = f
    def __eq__(self, o): return isinstance(o, St) and self.f == o.f
    def __ne__(self, o): return not self == o
    __hash__ = None
    def __repr__(self): return "St%r" % (self.f,)
class Ar(object):
    __slots__ = ("t", "n")
    def __init__(self, t, n): self.t, self.n = t, n
    def __eq__(self, o): return isinstance(o, Ar) and o.t is self.t and o.n is self.n
    def __ne__(self, o): return not self == o
    __hash__ = None
    def __repr__(self): return "Ar(%r;%r)" % (self.t, self.n)
class Ls(object):
    __slots__ = ("v",)
    def __init__(self, v): self.v = tuple(v)
    def __eq__(self, o): return isinstance(o, Ls) and o.v == self.v
    def __ne__(self, o): return not self == o
    __hash__ = None
    def __repr__(self): return "Ls%r" % (self.v,)
class Opaque(object):
    """a value nothing is known about (FILE*, time...)"""
    def __repr__(self): return "opaque"
    def __eq__(self, o): return isinstance(o, Opaque)
    def __ne__(self, o): return not self == o
    __hash__ = None
OPQ = Opaque()

# ------------------------------------------------------------------ types
def clean(ty):
    ty = ty.replace("const ", "").replace("volatile ", "").replace("struct ", "").replace(" const", "").replace("restrict", "").strip()
    return ty
INTS = {"int", "unsigned int", "long", "unsigned long", "size_t", "_Bool", "char", "unsigned char", "short",
        "long long", "unsigned long long", "signed char", "FLAG", "INTERPOL", "VERBOSITY", "time_t", "unsigned", "bool",
        "unsigned short", "ssize_t", "ptrdiff_t"}
UNS = {"unsigned int", "unsigned long", "size_t", "unsigned long long", "unsigned char", "unsigned", "unsigned short"}
REALS = {"double", "histo_t", "float", "long double"}
_arr = re.compile(r"^(.*?)\s*((?:\[\d+\])+)$")
_parr = re.compile(r"^(.*?)\s*\(\*\)\s*((?:\[\d+\])+)$")
def is_arr(ty):
    ty = clean(ty)
    return bool(_arr.match(ty)) and "(" not in ty
def arr_parts(ty):
    m = _arr.match(clean(ty))
    return m.group(1).strip(), [int(x) for x in re.findall(r"\[(\d+)\]", m.group(2))]
def is_fnptr(ty):
    return "(*)(" in ty or bool(re.search(r"\)\s*\(|\w \(", ty)) and "(*)[" not in ty
def is_ptr(ty):
    ty = clean(ty)
    return ty.endswith("*") or "(*)" in ty or ty.endswith("]") and False
def pointee(ty):
    ty = clean(ty)
    m = _parr.match(ty)
    if m: return m.group(1).strip() + m.group(2)
    if ty.endswith("*"): return ty[:-1].strip()
    if is_arr(ty):
        b, d = arr_parts(ty)
        return b + "".join("[%d]" % x for x in d[1:])
    return "void"
SIZES = {"int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "size_t": 8, "_Bool": 1, "char": 1, "double": 8,
         "histo_t": 8, "float": 4, "FLAG": 4, "INTERPOL": 4, "VERBOSITY": 4, "long long": 8, "unsigned": 4}

class State(object):
    __slots__ = ("mem", "alive", "facts", "guards", "loopvars")
    def __init__(self):
        self.mem, self.alive, self.facts, self.guards, self.loopvars = {}, {}, (), (), ()
    def copy(self):
        s = State.__new__(State)
        s.mem, s.alive = dict(self.mem), dict(self.alive)
        s.facts, s.guards, s.loopvars = self.facts, self.guards, self.loopvars
        return s
    def ctx(self): return list(self.facts) + list(self.guards)

class Obl(object):
    __slots__ = ("kind", "facts", "goal", "where", "status", "note")
    def __init__(self, kind, facts, goal, where):
        self.kind, self.facts, self.goal, self.where, self.status, self.note = kind, facts, goal, where, None, None
    def __repr__(self): return "%s@%s: %s" % (self.kind, self.where, tm.show(self.goal))

class Frame(object):
    __slots__ = ("fn", "vars", "id")

class Exec(object):
    def __init__(self, prog, cuts=None, init=None, opts=None):
        self.P = prog
        self.cuts = cuts or {}
        self.obls = []
        self.quiet = 0
        self.nid = 0
        self.frames = []
        self.strings = {}
        self.script, self.pos = [], 0
        self.init = init or {}          # ('g',...) -> value overrides
        self.inputs = {}                # obj -> initial symbolic value (created on demand)
        self.types = {}                 # obj -> C type of elements/scalar
        self.tmpl = {}                  # skolem name -> (params, [facts])
        self.writes = None              # write log (omp)
        self.reads = None
        self.tlsmap = None
        self.opts = opts or {}
        self.inlined = set()
        self.usedcuts = set()
        self.notes = []
        self.depth = 0
        self.heapinfo = {}
        self.region = None
        self.nloops = 0
        self.nunroll = 0
        self.cuta = {}
        self.pairs = []

    # -------------------------------------------------------------- helpers
    def newid(self):
        self.nid += 1
        return self.nid
    def strid(self, s):
        if s not in self.strings: self.strings[s] = len(self.strings) + 1000
        return tm.num(self.strings[s], "I")
    def fresh(self, st, base, sort):
        name = "%s~%d" % (base, self.newid())
        lv = st.loopvars
        if sort in ("AR", "AI"):
            if not lv: return tm.var(name, sort)
            if sort == "AR": return tm.lam(lambda j: tm.fn(name, *(list(lv) + [j])))
            return tm.lam(lambda j: tm.ifn(name, *(list(lv) + [j])))
        if not lv: return tm.var(name, sort)
        return {"R": tm.fn, "I": tm.ifn, "B": tm.bfn}[sort](name, *lv)
    def where(self, n=None):
        f = self.frames[-1].fn if self.frames else None
        l = n.line if n is not None and getattr(n, "line", None) else None
        return "%s:%s" % (f.name if f else "?", l)
    def oblige(self, kind, st, goal, n=None):
        if self.quiet or goal is TRUE: return
        g, fs = goal, st.ctx()
        if g in fs: return
        self.obls.append(Obl(kind, fs, g, self.where(n)))

    def decide(self, st, c, z3=True):
        """TRUE/FALSE/None under the path facts.  Only integer conditions go to the solver."""
        if c is TRUE or c is FALSE: return c
        ctx = st.ctx()
        if c in ctx: return TRUE
        if tm.not_(c) in ctx: return FALSE
        if not z3: return None
        if not self.intonly(c): return None
        fs = [f for f in ctx if self.intonly(f)]
        if solve.entails(fs, c, 600): return TRUE
        if solve.entails(fs, tm.not_(c), 600): return FALSE
        return None
    _io = {}
    def intonly(self, c):
        r = self._io.get(c)
        if r is None:
            r = all(x.s not in ("R", "AR") and x.op not in ("sum",) for x in tm.subterms(c))
            self._io[c] = r
        return r
    def simp(self, st, v):
        """resolve outer ites on integer conditions decided by the path"""
        if not isinstance(v, T): return v
        n = 0
        while v.op == "ite" and n < 200:
            d = self.decide(st, v.a[0])
            if d is TRUE: v = v.a[1]
            elif d is FALSE: v = v.a[2]
            else: break
            n += 1
        if v.op == "ite":
            # inner parts under their own guard
            c = v.a[0]
            a = self.simp_under(st, v.a[1], c) if v.a[1].op == "ite" else v.a[1]
            b = self.simp_under(st, v.a[2], tm.not_(c)) if v.a[2].op == "ite" else v.a[2]
            v = tm.ite(c, a, b)
        return v
    def simp_under(self, st, v, c):
        s2 = st.copy()
        s2.guards = s2.guards + (c,)
        return self.simp(s2, v)

    # -------------------------------------------------------------- coercions
    def as_int(self, v):
        if isinstance(v, T):
            if v.s == "B": return tm.ite(v, IONE, IZERO)
            if v.s == "I": return v
            raise Unsupported("real where integer expected")
        raise Unsupported("pointer where integer expected")
    def as_real(self, v):
        if isinstance(v, T):
            if v.s == "B": return tm.ite(v, ONE, ZERO)
            if v.s == "I": return tm.i2r(v)
            return v
        raise Unsupported("pointer where number expected")
    def as_bool(self, v):
        if isinstance(v, T):
            if v.s == "B": return v
            if v.op == "ite" and v.a[1].op == "num" and v.a[2].op == "num":
                a, b = v.a[1].a[0] != 0, v.a[2].a[0] != 0
                if a and not b: return v.a[0]
                if b and not a: return tm.not_(v.a[0])
            return tm.not_(tm.eq(v, tm.num(0, v.s)))
        if isinstance(v, Ptr): return FALSE if v == NULL else TRUE
        if isinstance(v, FnPtr): return TRUE
        if isinstance(v, Opaque): return tm.fresh("opq", "B")
        raise Unsupported("truth of %r" % (v,))
    def coerce(self, v, ty):
        ty = clean(ty)
        if isinstance(v, T):
            if ty in REALS: return self.as_real(v)
            if ty == "_Bool": return self.as_int(self.as_bool(v))
            if ty in INTS:
                if v.s == "R": return self.toint(v)
                return self.as_int(v)
        return v
    def toint(self, v):
        if v.op == "num":
            x = v.a[0]
            return tm.num(int(x), "I")
        if v.op == "i2r": return v.a[0]
        return tm.ifn("trunc", v)

    # -------------------------------------------------------------- memory
    def nscal(self, ty):
        ty = clean(ty)
        if is_arr(ty):
            b, d = arr_parts(ty)
            n = 1
            for x in d: n *= x
            return n
        return 1
    def sizeof(self, ty):
        ty = clean(ty)
        if is_arr(ty):
            b, d = arr_parts(ty)
            n = self.sizeof(b)
            for x in d: n *= x
            return n
        if is_ptr(ty): return 8
        if ty in SIZES: return SIZES[ty]
        if ty in self.P.recs: return sum(8 for f in self.P.recs[ty])
        if ty == "void": return 1
        raise Unsupported("sizeof " + ty)
    def symval(self, name, ty, mk=None):
        """a symbolic value of a type; pointers lead to fresh symbolic objects"""
        ty = clean(ty)
        if ty in REALS: return tm.var(name, "R")
        if ty == "_Bool": return tm.var(name, "I")
        if ty in INTS:
            v = tm.var(name, "I")
            if ty in UNS: tm.UNSIGNED.add(v)
            return v
        if is_arr(ty):
            b, d = arr_parts(ty)
            n = 1
            for x in d: n *= x
            if b in REALS: return Ar(tm.avar(name, "R"), tm.num(n, "I"))
            if b in INTS: return Ar(tm.avar(name, "I"), tm.num(n, "I"))
            return Ls([self.symval("%s[%d]" % (name, i), b) for i in range(n)])
        if ty in self.P.recs:
            return St({f: self.symval(name + "." + f, t) for f, t in self.P.recs[ty]})
        if ty == "char *": return tm.var(name, "I")
        if is_fnptr(ty): return OPQ
        if is_ptr(ty):
            p = pointee(ty)
            if p in ("FILE", "void"): return OPQ
            return Ptr(("s", name, p))
        return OPQ
    def undef(self, st, ty):
        ty = clean(ty)
        if ty in REALS: return self.fresh(st, "undef", "R")
        if ty in INTS: return self.fresh(st, "undef", "I")
        if is_arr(ty):
            b, d = arr_parts(ty)
            n = 1
            for x in d: n *= x
            if b in REALS or b in INTS: return Ar(self.fresh(st, "undef", "AR" if b in REALS else "AI"), tm.num(n, "I"))
            return Ls([self.undef(st, b) for _ in range(n)])
        if ty in self.P.recs: return St({f: self.undef(st, t) for f, t in self.P.recs[ty]})
        return OPQ
    def zero(self, st, ty):
        ty = clean(ty)
        if ty in REALS: return ZERO
        if ty in INTS: return IZERO
        if is_arr(ty):
            b, d = arr_parts(ty)
            n = 1
            for x in d: n *= x
            if b in REALS: return Ar(tm.aconst(ZERO), tm.num(n, "I"))
            if b in INTS: return Ar(tm.aconst(IZERO), tm.num(n, "I"))
            return Ls([self.zero(st, b) for _ in range(n)])
        if ty in self.P.recs: return St({f: self.zero(st, t) for f, t in self.P.recs[ty]})
        return NULL

    def root(self, st, obj):
        v = st.mem.get(obj)
        if v is not None: return v
        v = self.inputs.get(obj)
        if v is None: v = self.create(obj)
        return v
    def create(self, obj):
        if obj in self.init:
            v = self.init[obj]
            if callable(v): v = v(self)
        elif obj[0] == "g":
            g = obj[2]
            file, name = obj[1], g
            gv = self.P.gv(name, file)
            if gv is None: raise Unsupported("unknown global " + name)
            key = ("g", gv.file if gv.static else "*", name)
            if gv.const and gv.init is not None:
                st = State()
                v = self.initval(gv.init, gv.ty, st, gv.file)
            else:
                v = self.symval(self.gname(gv), gv.ty)
            self.types[obj] = gv.ty
        elif obj[0] == "tls":
            gv = self.P.gv(obj[3], obj[2])
            v = self.symval("%s@t%d" % (self.gname(gv), obj[1]), gv.ty)
            self.types[obj] = gv.ty
        elif obj[0] == "s":
            name, p = obj[1], obj[2]
            if p in REALS: v = Ar(tm.avar(name, "R"), tm.var("len(%s)" % name, "I"))
            elif p in INTS: v = Ar(tm.avar(name, "I"), tm.var("len(%s)" % name, "I"))
            else: v = self.symval("*" + name, p)
            self.types[obj] = p
        else: raise Unsupported("unknown object %r" % (obj,))
        self.inputs[obj] = v
        return v
    def gname(self, gv):
        return "%s:%s" % (gv.file[:-2], gv.name) if gv.static else gv.name
    def gobj(self, name, file):
        gv = self.P.gv(name, file)
        if gv is None: raise Unsupported("unknown global " + name)
        if gv.tls and self.tlsmap is not None:
            return ("tls", self.tlsmap, gv.file, name)
        return ("g", gv.file if gv.static else gv.file, name)

    def sub(self, v, path):
        for p in path:
            if isinstance(v, St): v = v.f[p]
            elif isinstance(v, Ls): v = v.v[p]
            else: raise Unsupported("path %s in %r" % (p, v))
        return v
    def upd(self, v, path, new):
        if not path: return new
        p = path[0]
        if isinstance(v, St):
            f = dict(v.f); f[p] = self.upd(f[p], path[1:], new)
            return St(f)
        if isinstance(v, Ls):
            l = list(v.v); l[p] = self.upd(l[p], path[1:], new)
            return Ls(l)
        raise Unsupported("path update")
    def live(self, st, obj, n):
        a = st.alive.get(obj)
        if a is not None and a is not TRUE: self.oblige("live", st, a, n)
    def norm(self, st, p, n, ty=None):
        """resolve an offset into a list of pointers/structs"""
        if p.obj is None:
            self.oblige("null", st, FALSE, n)
            raise Unsupported("null dereference")
        v = self.sub(self.root(st, p.obj), p.path)
        while isinstance(v, Ls):
            o = self.simp(st, p.off)
            if o.op != "num": raise Unsupported("symbolic index into a pointer/struct array")
            i = o.a[0]
            if not (0 <= i < len(v.v)):
                self.oblige("bounds", st, FALSE, n); raise Unsupported("index out of a pointer array")
            p = Ptr(p.obj, p.path + (i,), IZERO)
            v = v.v[i]
        return p, v
    def load(self, st, p, n=None, ty=None):
        if isinstance(p, Opaque): return OPQ
        p, v = self.norm(st, p, n)
        self.live(st, p.obj, n)
        if isinstance(v, Ar):
            self.bounds(st, p.off, v.n, n)
            if self.reads is not None and not self.quiet: self.reads.append((p, st.guards, st.facts, self.where(n)))
            return self.simp(st, tm.sel(v.t, p.off))
        if p.off is not IZERO:
            self.oblige("bounds", st, tm.eq(p.off, IZERO), n)
        if self.reads is not None and not self.quiet: self.reads.append((p, st.guards, st.facts, self.where(n)))
        return v
    def bounds(self, st, off, n, node):
        if off.op == "num" and n.op == "num":
            g = TRUE if 0 <= off.a[0] < n.a[0] else FALSE
        else:
            g = tm.and_(tm.le(IZERO, off), tm.lt(off, n))
        self.oblige("bounds", st, g, node)
    def store(self, st, p, val, n=None):
        if isinstance(p, Opaque): return
        p, v = self.norm(st, p, n)
        self.live(st, p.obj, n)
        if self.writes is not None and not self.quiet:
            self.writes.append((p, st.guards, st.facts, self.where(n), self.exclusive))
        if isinstance(v, Ar) and not isinstance(val, Ar):
            self.bounds(st, p.off, v.n, n)
            if v.t.s == "AR": val = self.as_real(val)
            else: val = self.as_int(val)
            new = Ar(tm.store(v.t, p.off, val), v.n)
        else:
            if p.off is not IZERO: self.oblige("bounds", st, tm.eq(p.off, IZERO), n)
            new = val
            if isinstance(v, T) and isinstance(val, T) and v.s != val.s:
                new = self.as_real(val) if v.s == "R" else (self.as_int(val) if val.s != "R" else self.toint(val))
        st.mem[p.obj] = self.upd(self.root(st, p.obj), p.path, new)
    exclusive = False

    def retype(self, st, p, ty):
        """a cast of freshly allocated storage gives it its element type"""
        if not isinstance(p, Ptr) or p.obj is None: return p
        h = self.heapinfo.get(p.obj)
        if h and h[1] is None:
            pt = pointee(ty)
            if pt == "void": return p
            size, _, zero = h
            n = tm.idiv(size, tm.num(self.sizeof(pt), "I"))
            base = pt
            mult = 1
            if is_arr(pt):
                b, d = arr_parts(pt); base = b
                for x in d: mult *= x
                n = tm.mul(n, tm.num(mult, "I"))
            if base in REALS or base in INTS:
                es = "R" if base in REALS else "I"
                t = tm.aconst(tm.num(0, es)) if zero else self.fresh(st, "heap", "A" + es)
                st.mem[p.obj] = Ar(t, n)
            else:
                if n.op == "num" and n.a[0] <= 64:
                    if n.a[0] == 1: st.mem[p.obj] = self.zero(st, base) if zero else self.undef(st, base)
                    else: st.mem[p.obj] = Ls([self.zero(st, base) if zero else self.undef(st, base) for _ in range(n.a[0])])
                else: raise Unsupported("heap array of " + base)
            self.heapinfo[p.obj] = (size, pt, zero)
            self.types[p.obj] = base
        return p
    def alloc(self, st, size, zero):
        o = ("h", self.newid())
        if st.loopvars: pass
        st.mem[o] = OPQ
        st.alive[o] = TRUE
        self.heapinfo[o] = (size, None, zero)
        return Ptr(o)
    def free(self, st, p, n):
        if p == NULL or isinstance(p, Opaque): return
        if self.writes is not None and not self.quiet:
            self.writes.append((p, st.guards, st.facts, self.where(n), self.exclusive))
        if p.obj[0] == "s":
            if p.obj not in st.alive: st.alive[p.obj] = TRUE      # a block handed in by the caller
        elif p.obj not in st.alive:
            self.oblige("free-of-non-heap", st, FALSE, n); return
        self.oblige("double-free", st, st.alive[p.obj], n)
        self.oblige("free-interior", st, tm.eq(p.off, IZERO), n)
        st.alive[p.obj] = FALSE

    # -------------------------------------------------------------- merging
    def mergev(self, c, a, b):
        if a is b: return a
        if isinstance(a, T) and isinstance(b, T):
            if a.s != b.s:
                if "B" in (a.s, b.s): a, b = self.as_int(a) if a.s != "R" else a, self.as_int(b) if b.s != "R" else b
                if a.s != b.s: a, b = self.as_real(a), self.as_real(b)
            return tm.ite(c, a, b)
        if isinstance(a, Ar) and isinstance(b, Ar):
            if a.n is not b.n: raise Unmergeable("array lengths")
            return Ar(self.mergearr(c, a.t, b.t), a.n)
        if isinstance(a, St) and isinstance(b, St):
            return St({f: self.mergev(c, a.f[f], b.f[f]) for f in a.f})
        if isinstance(a, Ls) and isinstance(b, Ls) and len(a.v) == len(b.v):
            return Ls([self.mergev(c, x, y) for x, y in zip(a.v, b.v)])
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj and a.path == b.path: return Ptr(a.obj, a.path, tm.ite(c, a.off, b.off))
            raise Unmergeable("pointers %r %r" % (a, b))
        if isinstance(a, Opaque) or isinstance(b, Opaque): return OPQ
        if a == b: return a
        raise Unmergeable("%r %r" % (a, b))
    def mergearr(self, c, a, b):
        """element-wise where the two arrays are updates of a common one at literal positions"""
        first = []
        def chain(t):
            ch = []
            while t.op == "store" and (t.a[1].op == "num" or not first or tm.sub(t.a[1], first[0]).op == "num"):
                if t.a[1].op != "num" and not first: first.append(t.a[1])
                if first and tm.sub(t.a[1], first[0]).op != "num": break
                ch.append((t.a[1], t.a[2])); t = t.a[0]
            return t, ch
        ta, ca = chain(a)
        tb, cb = chain(b)
        if ta is tb and len(ca) + len(cb) <= 64:
            idx = {}
            for i, _ in list(reversed(ca)) + list(reversed(cb)): idx[i] = 1
            r = ta
            for i in idx: r = tm.store(r, i, tm.ite(c, tm.sel(a, i), tm.sel(b, i)))
            return r
        return tm.ite(c, a, b)
    def join(self, base, outs):
        """merge states forked from base (a list of State)"""
        outs = list(outs)
        if not outs: return None
        r = outs[0]
        for s in outs[1:]: r = self.join2(base, r, s)
        return r
    def join2(self, base, a, b):
        nb = len(base.guards)
        ga = tm.and_(*a.guards[nb:]) if len(a.guards) > nb else TRUE
        gb = tm.and_(*b.guards[nb:]) if len(b.guards) > nb else TRUE
        c = ga
        r = base.copy()
        r.facts = a.facts
        if b.facts != a.facts:
            sa = set(a.facts)
            r.facts = a.facts + tuple(f for f in b.facts if f not in sa)
        g = tm.or_(ga, gb)
        r.guards = base.guards + ((g,) if g is not TRUE else ())
        mem = {}
        for o in set(a.mem) | set(b.mem):
            va, vb = a.mem.get(o), b.mem.get(o)
            if va is None or vb is None:
                if o[0] in ("l", "h"):
                    mem[o] = va if vb is None else vb
                    continue
                va = va if va is not None else self.root(a, o)
                vb = vb if vb is not None else self.root(b, o)
            mem[o] = va if va is vb else self.mergev(c, va, vb)
        al = {}
        for o in set(a.alive) | set(b.alive):
            dflt = TRUE if o[0] == "s" else FALSE
            x, y = a.alive.get(o, dflt), b.alive.get(o, dflt)
            al[o] = tm.ite(c, x, y)
        r.mem, r.alive = mem, al
        return r
    def choose(self, st, c):
        """fork the whole execution on c"""
        if any(v in c.fv for v in st.loopvars): raise Unsupported("fork inside a loop")
        if self.pos < len(self.script): v = self.script[self.pos]
        else:
            v = True
            self.script.append(True)
        self.pos += 1
        return v

    # -------------------------------------------------------------- expressions
    def lookup(self, n):
        fr = self.frames[-1]
        kind, vid = n.x
        o = fr.vars.get(vid)
        if o is not None: return o
        return self.gobj(n.v, fr.fn.file)
    def lv(self, n, st):
        k = n.k
        if k == "Ref":
            if n.x[0] in ("VarDecl", "ParmVarDecl"):
                if n.v in ("stderr", "stdout", "stdin") and self.P.gv(n.v, self.frames[-1].fn.file) is None: return OPQ
                return Ptr(self.lookup(n))
        elif k == "Mem":
            if n.x:
                p = self.ev(n.c[0], st)
            else: p = self.lv(n.c[0], st)
            if isinstance(p, Opaque): return p
            p, v = self.norm(st, p, n)
            if not isinstance(v, St): 
                if isinstance(v, Opaque): return OPQ
                raise Unsupported("member of a non-struct")
            if p.off is not IZERO: self.oblige("bounds", st, tm.eq(p.off, IZERO), n)
            return Ptr(p.obj, p.path + (n.v,), IZERO)
        elif k == "Idx":
            a, b = n.c
            p, i = self.ev(a, st), self.ev(b, st)
            if isinstance(i, Ptr): p, i, a, b = i, p, b, a
            if isinstance(p, Opaque): return OPQ
            return self.padd(st, p, self.as_int(i), self.nscal(n.ty), n)
        elif k == "Un" and n.v == "*":
            p = self.ev(n.c[0], st)
            if not isinstance(p, (Ptr, Opaque)): raise Unsupported("deref")
            return p
        elif k == "Cast": return self.lv(n.c[0], st)
        elif k == "CompLit":
            o = ("l", self.newid(), "complit")
            st.mem[o] = self.initval(n.c[0], n.ty, st, None)
            return Ptr(o)
        elif k == "Str":
            return OPQ
        raise Unsupported("lvalue " + k)
    def padd(self, st, p, i, stride, n):
        if not isinstance(p, Ptr): raise Unsupported("pointer arithmetic")
        if stride != 1: i = tm.mul(tm.num(stride, "I"), i)
        if i is IZERO: return p
        p2, v = p, None
        if p.obj is not None:
            pass
        return Ptr(p.obj, p.path, tm.add(p.off, i))
    def ev(self, n, st):
        m = getattr(self, "ev_" + n.k, None)
        if m is None: raise Unsupported("expression " + n.k + " " + str(n.v))
        return m(n, st)
    def ev_Int(self, n, st): return tm.num(n.v, "I")
    def ev_Flt(self, n, st): return tm.PI if str(n.v).startswith("3.14159265358979") else tm.num(Fraction(repr(float(n.v))))
    def ev_Str(self, n, st): return self.strid(n.v)
    def ev_Sizeof(self, n, st): return tm.num(self.sizeof(n.v), "I")
    def ev_Zero(self, n, st): return self.zero(st, n.ty)
    def ev_Ref(self, n, st):
        if n.x[0] == "EnumConstantDecl": return tm.num(self.P.enums[n.v], "I")
        if n.x[0] == "FunctionDecl":
            f = self.P.fn(n.v, self.frames[-1].fn.file)
            if f is None: return ("extern", n.v)
            return FnPtr(f)
        return self.lv(n, st)          # an lvalue; loads go through casts
    def ev_Mem(self, n, st): return self.lv(n, st)
    def ev_Idx(self, n, st): return self.lv(n, st)
    def ev_CompLit(self, n, st): return self.lv(n, st)
    def ev_InitList(self, n, st): return self.initval(n, n.ty, st, None)
    def ev_Cast(self, n, st):
        ck, e = n.v, n.c[0]
        if ck == "LValueToRValue":
            p = self.lv(e, st)
            v = self.load(st, p, e)
            return v
        if ck == "ArrayToPointerDecay":
            if e.k == "Str": return self.strid(e.v)
            return self.lv(e, st)
        if ck in ("FunctionToPointerDecay", "NoOp", "BuiltinFnToFnPtr"):
            return self.ev(e, st)
        v = self.ev(e, st)
        if ck == "BitCast":
            return self.retype(st, v, n.ty)
        if ck == "NullToPointer": return NULL
        if ck == "IntegralToFloating": return self.as_real(self.unsig(st, self.as_int(v), e.ty))
        if ck == "IntegralCast": return self.icast(st, self.as_int(v), e.ty, n.ty)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"): return self.as_bool(v)
        if ck == "FloatingToIntegral": return self.toint(v)
        if ck == "FloatingCast": return v
        if ck == "ToVoid": return v
        if ck == "PointerToIntegral": raise Unsupported("pointer to integer")
        raise Unsupported("cast " + ck)
    def unsig(self, st, v, ty):
        """the value as seen through an unsigned type (kept mathematical when provably non-negative)"""
        if clean(ty) not in UNS: return v
        if v.op == "num": return v if v.a[0] >= 0 else tm.num(v.a[0] % TWO64, "I")
        if self.nonneg(st, v): return v
        return tm.ite(tm.lt(v, IZERO), tm.add(v, tm.num(TWO64, "I")), v)
    def nonneg(self, st, v):
        if v.op == "num": return v.a[0] >= 0
        if v in tm.UNSIGNED: return True
        if v.op == "var" and v.a[0].startswith("#"): return False
        if v.op in ("add", "mul"):
            if all(self.nonneg(st, x) for x in v.a): return True
        if v.op == "ite" and self.nonneg(st, v.a[1]) and self.nonneg(st, v.a[2]): return True
        if v.op in ("idiv", "imod") and self.nonneg(st, v.a[0]): return True
        return self.decide(st, tm.le(IZERO, v)) is TRUE
    def icast(self, st, v, t1, t2):
        t1, t2 = clean(t1), clean(t2)
        if t2 == "_Bool": return self.as_int(self.as_bool(v))
        if v.op == "num":
            sz = 8 * SIZES.get(t2, 8)
            x = v.a[0]
            if t2 in UNS:
                return v if x >= 0 else v    # stays mathematical; wrapped where compared
            return v
        return v
    def ev_Un(self, n, st):
        op, e = n.v, n.c[0]
        if op == "&":
            if e.k == "Ref" and e.x[0] == "FunctionDecl": return self.ev(e, st)
            return self.lv(e, st)
        if op == "*":
            if is_fnptr(n.c[0].ty) or n.ty.rstrip().endswith(")"): return self.ev(e, st)
            return self.lv(n, st)
        if op in ("++", "--"):
            p = self.lv(e, st)
            old = self.load(st, p, e)
            if isinstance(old, Ptr):
                new = self.padd(st, old, tm.num(1 if op == "++" else -1, "I"), self.nscal(pointee(e.ty)), n)
            else:
                one = tm.num(1, old.s)
                new = tm.add(old, one) if op == "++" else tm.sub(old, one)
            self.store(st, p, new, n)
            return old if n.x else new
        v = self.ev(e, st)
        if op == "-":
            if isinstance(v, T) and v.s == "B": v = self.as_int(v)
            return tm.neg(v)
        if op == "+": return v
        if op == "!": return tm.not_(self.as_bool(v))
        if op == "__extension__": return v
        raise Unsupported("unary " + op)
    def ev_Bin(self, n, st):
        op = n.v
        if op == "=":
            p = None
            v = self.ev(n.c[1], st)
            p = self.lv(n.c[0], st)
            if isinstance(v, Ptr) and not is_ptr(n.c[0].ty) and not isinstance(v, FnPtr):
                # struct assignment through an lvalue
                v = self.load(st, v, n)
            v = self.coerce(v, n.c[0].ty)
            self.store(st, p, v, n)
            return v
        if op == ",":
            self.ev(n.c[0], st)
            return self.ev(n.c[1], st)
        if op in ("&&", "||"):
            a = self.as_bool(self.ev(n.c[0], st))
            d = self.decide(st, a)
            if d is not None: a = d
            if op == "&&" and a is FALSE: return FALSE
            if op == "||" and a is TRUE: return TRUE
            g = a if op == "&&" else tm.not_(a)
            s2 = st.copy()
            if g is not TRUE: s2.guards = s2.guards + (g,)
            b = self.as_bool(self.ev(n.c[1], s2))
            self.absorb(st, s2, g)
            return tm.and_(a, b) if op == "&&" else tm.or_(a, b)
        a, b = self.ev(n.c[0], st), self.ev(n.c[1], st)
        return self.binop(st, op, a, b, n, n.c[0].ty, n.c[1].ty)
    def absorb(self, st, s2, g):
        """side effects of a conditionally evaluated operand"""
        if s2.mem == st.mem and s2.alive == st.alive and s2.facts == st.facts: return
        s1 = st.copy()
        s1.guards = s1.guards + (tm.not_(g),)
        if g is TRUE: r = s2
        else:
            try: r = self.join2(st, s2, s1)
            except Unmergeable: raise Unsupported("unmergeable side effects in an expression")
        st.mem, st.alive, st.facts = r.mem, r.alive, r.facts
    def binop(self, st, op, a, b, n, ta, tb):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if op in ("==", "!="): return tm.fresh("opq", "B")
            raise Unsupported("operation on an unknown pointer")
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if op in ("==", "!="):
                e = self.ptreq(a, b)
                return e if op == "==" else tm.not_(e)
            if op == "+":
                if isinstance(b, Ptr): a, b, ta, tb = b, a, tb, ta
                return self.padd(st, a, self.as_int(b), self.nscal(pointee(ta)), n)
            if op == "-" and isinstance(b, T):
                return self.padd(st, a, tm.neg(self.as_int(b)), self.nscal(pointee(ta)), n)
            if op == "-" and isinstance(b, Ptr) and a.cell() == b.cell():
                return tm.idiv(tm.sub(a.off, b.off), tm.num(self.nscal(pointee(ta)), "I"))
            if op in ("<", ">", "<=", ">=") and a.cell() == b.cell():
                return self.binop(st, op, a.off, b.off, n, "long", "long")
            raise Unsupported("pointer operation " + op)
        if a.s == "B": a = self.as_int(a)
        if b.s == "B": b = self.as_int(b)
        isint = a.s == "I" and b.s == "I"
        if not isint: a, b = self.as_real(a), self.as_real(b)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if isint and (clean(ta) in UNS or clean(tb) in UNS):
                if op in ("==", "!=") and not (a.op == "num" and b.op == "num"):
                    pass
                else: a, b = self.unsig(st, a, "size_t"), self.unsig(st, b, "size_t")
            return {"<": lambda: tm.lt(a, b), ">": lambda: tm.lt(b, a), "<=": lambda: tm.le(a, b),
                    ">=": lambda: tm.le(b, a), "==": lambda: tm.eq(a, b), "!=": lambda: tm.not_(tm.eq(a, b))}[op]()
        if op == "+": return tm.add(a, b)
        if op == "-": return tm.sub(a, b)
        if op == "*": return tm.mul(a, b)
        if op == "/":
            if not isint: return tm.div(a, b)
            uns = clean(ta) in UNS or clean(tb) in UNS
            if uns: a, b = self.unsig(st, a, "size_t"), self.unsig(st, b, "size_t")
            self.oblige("div0", st, tm.not_(tm.eq(b, IZERO)), n)
            if b is IZERO: return self.fresh(st, "div0", "I")
            return self.cdiv(st, a, b)
        if op == "%":
            uns = clean(ta) in UNS or clean(tb) in UNS
            if uns: a, b = self.unsig(st, a, "size_t"), self.unsig(st, b, "size_t")
            self.oblige("div0", st, tm.not_(tm.eq(b, IZERO)), n)
            if b is IZERO: return self.fresh(st, "div0", "I")
            if self.nonneg(st, a) and self.nonneg(st, b): return tm.imod(a, b)
            q = self.cdiv(st, a, b)
            return tm.sub(a, tm.mul(b, q))
        if op in ("&", "|", "^", "<<", ">>") and a.op == "num" and b.op == "num":
            x, y = a.a[0], b.a[0]
            return tm.num({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y, ">>": x >> y}[op], "I")
        if op == "&" and b is IONE and self.nonneg(st, a): return tm.imod(a, tm.num(2, "I"))
        if op == ">>" and b.op == "num" and self.nonneg(st, a): return tm.idiv(a, tm.num(1 << b.a[0], "I"))
        if op == "<<" and b.op == "num": return tm.mul(tm.num(1 << b.a[0], "I"), a)
        raise Unsupported("operator " + op)
    def cdiv(self, st, a, b):
        if a.op == "num" and b.op == "num":
            q = abs(a.a[0]) // abs(b.a[0])
            return tm.num(q if (a.a[0] >= 0) == (b.a[0] >= 0) else -q, "I")
        if self.nonneg(st, a) and self.nonneg(st, b): return tm.idiv(a, b)
        neg = tm.lt(a, IZERO)
        if self.nonneg(st, b):
            return tm.ite(neg, tm.neg(tm.idiv(tm.neg(a), b)), tm.idiv(a, b))
        raise Unsupported("signed division")
    def ptreq(self, a, b):
        if isinstance(a, T): a = NULL if a is IZERO else a
        if isinstance(b, T): b = NULL if b is IZERO else b
        if isinstance(a, FnPtr) or isinstance(b, FnPtr): return TRUE if a == b else FALSE
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.cell() == b.cell(): return tm.eq(a.off, b.off)
            return FALSE
        raise Unsupported("pointer comparison")
    def ev_CAs(self, n, st):
        op = n.v[:-1]
        v = self.ev(n.c[1], st)
        p = self.lv(n.c[0], st)
        old = self.load(st, p, n.c[0])
        r = self.binop(st, op, old, v, n, n.c[0].ty, n.c[1].ty)
        r = self.coerce(r, n.c[0].ty)
        self.store(st, p, r, n)
        return r
    def ev_Cond(self, n, st):
        c = self.as_bool(self.ev(n.c[0], st))
        d = self.decide(st, c)
        if d is TRUE: return self.rv(self.ev(n.c[1], st), n, st)
        if d is FALSE: return self.rv(self.ev(n.c[2], st), n, st)
        s1, s2 = st.copy(), st.copy()
        s1.guards = s1.guards + (c,)
        s2.guards = s2.guards + (tm.not_(c),)
        a = self.rv(self.ev(n.c[1], s1), n, s1)
        b = self.rv(self.ev(n.c[2], s2), n, s2)
        try:
            v = self.mergev(c, a, b)
            r = self.join2(st, s1, s2)
        except Unmergeable:
            take = self.choose(st, c)
            r, v = (s1, a) if take else (s2, b)
            st.guards = r.guards
        st.mem, st.alive, st.facts = r.mem, r.alive, r.facts
        return v
    def rv(self, v, n, st): return v

    # -------------------------------------------------------------- initialisers
    def initval(self, n, ty, st, file):
        ty = clean(ty)
        if n.k == "InitList":
            if is_arr(ty):
                b, d = arr_parts(ty)
                if b in REALS or b in INTS:
                    inner = 1
                    for x in d[1:]: inner *= x
                    v = self.zero(st, ty)
                    t = v.t
                    for i, c in enumerate(n.c):
                        if len(d) > 1:
                            if c.k == "Zero": continue
                            sub = self.initval(c, b + "".join("[%d]" % x for x in d[1:]), st, file)
                            for j in range(inner):
                                t = tm.store(t, tm.num(i * inner + j, "I"), tm.sel(sub.t, tm.num(j, "I")))
                        else:
                            if c.k == "Zero": continue
                            e = self.ev(c, st)
                            e = self.as_real(e) if b in REALS else self.as_int(e)
                            t = tm.store(t, tm.num(i, "I"), e)
                    return Ar(t, v.n)
                vals = []
                n1 = d[0]
                rest = b + "".join("[%d]" % x for x in d[1:])
                for i in range(n1):
                    if i < len(n.c): vals.append(self.initval(n.c[i], rest, st, file))
                    else: vals.append(self.zero(st, rest))
                if len(d) > 1:
                    vals = [y for x in vals for y in x.v]
                return Ls(vals)
            if ty in self.P.recs:
                f = {}
                fl = self.P.recs[ty]
                for i, (nm, t) in enumerate(fl):
                    if i < len(n.c) and n.c[i].k != "Zero": f[nm] = self.initval(n.c[i], t, st, file)
                    else: f[nm] = self.zero(st, t)
                return St(f)
            if len(n.c) == 1: return self.initval(n.c[0], ty, st, file)
            raise Unsupported("initialiser for " + ty)
        v = self.ev(n, st)
        if n.k == "CompLit" or (isinstance(v, Ptr) and ty in self.P.recs): v = self.load(st, v, n)
        return self.coerce(v, ty)

    # -------------------------------------------------------------- calls
    def ev_Call(self, n, st):
        callee = n.c[0]
        f = self.ev(callee, st)
        if isinstance(f, Ptr): f = self.load(st, f, n)
        args = []
        for a in n.c[1:]:
            v = self.ev(a, st)
            if isinstance(v, Ptr) and clean(a.ty) in self.P.recs: v = self.load(st, v, a)
            args.append(v)
        if isinstance(f, tuple): return self.libcall(f[1], args, n, st)
        if isinstance(f, Opaque): raise Unsupported("call through an unknown pointer")
        if not isinstance(f, FnPtr): raise Unsupported("call of %r" % (f,))
        return self.call(f.fn, args, st, n)
    def call(self, fn, args, st, n=None):
        cut = self.cuts.get(fn.name)
        if cut is not None and fn.body is not None:
            r = cut(self, st, args, n, fn)
            if r is not NotImplemented:
                self.usedcuts.add(fn.name)
                return r
        if fn.body is None: return self.libcall(fn.name, args, n, st)
        if any(fr.fn is fn for fr in self.frames): raise Unsupported("recursion without a contract: " + fn.name)
        return self.run(fn, args, st)
    def run(self, fn, args, st):
        if len(self.frames) > 60: raise Unsupported("call depth")
        self.inlined.add(fn.name)
        fr = Frame()
        fr.fn, fr.vars, fr.id = fn, {}, self.newid()
        if len(args) != len(fn.params):
            if len(args) < len(fn.params): raise Unsupported("argument count in call of " + fn.name)
        for (nm, ty, pid), a in zip(fn.params, args):
            o = ("l", self.newid(), nm)
            fr.vars[pid] = o
            t = clean(ty)
            if isinstance(a, T): a = self.coerce(a, ty)
            st.mem[o] = a
        self.frames.append(fr)
        try:
            base = st.copy()
            outs = self.ex(fn.body, st)
        finally:
            self.frames.pop()
        # merge returns and fall-through
        fin = []
        for kind, s, v in outs:
            if kind == "exit": continue
            if kind in ("brk", "cont"): raise Unsupported("stray break")
            fin.append((s, v))
        if not fin:
            if outs: raise ExitSig()
            raise Unsupported("function never returns")
        s, v = fin[0]
        for s2, v2 in fin[1:]: s, v = self.joinv(base, s, v, s2, v2)
        st.mem, st.alive, st.facts, st.guards = s.mem, s.alive, s.facts, s.guards
        # path guards of a call that always returns are subsumed
        st.guards = base.guards if not any(k == "exit" for k, _, _ in outs) and not self.forked(base, st) else st.guards
        for o in [o for o in st.mem if o[0] == "l" and o not in base.mem and o in fr.vars.values()]: del st.mem[o]
        if v is None: return OPQ if clean(fn.ret) != "void" else None
        return self.coerce(v, fn.ret) if isinstance(v, T) else v
    def forked(self, base, st): return len(self.script) and getattr(self, "_forked", False)
    def joinv(self, base, s1, v1, s2, v2):
        nb = len(base.guards)
        c = tm.and_(*s1.guards[nb:]) if len(s1.guards) > nb else TRUE
        try:
            v = None
            if v1 is not None and v2 is not None: v = self.mergev(c, v1, v2)
            else: v = v1 if v1 is not None else v2
            return self.join2(base, s1, s2), v
        except Unmergeable:
            self._forked = True
            return (s1, v1) if self.choose(base, c) else (s2, v2)

    MATH1 = {"fabs": "abs", "fabsf": "abs", "log": "log", "logf": "log", "exp": "exp", "expf": "exp", "sqrt": "sqrt", "sqrtf": "sqrt",
             "sin": "sin", "sinf": "sin", "cos": "cos", "cosf": "cos"}
    NOEFFECT = {"printf", "fprintf", "fclose", "fflush", "puts", "putchar", "time", "clock", "omp_set_num_threads", "perror",
                "omp_set_dynamic", "setbuf", "cubacores", "cubaaccel", "putc", "fputs", "vprintf", "srand"}
    def libcall(self, name, args, n, st):
        cut = self.cuts.get(name)
        if cut is not None:
            r = cut(self, st, args, n, None)
            if r is not NotImplemented:
                self.usedcuts.add(name)
                return r
        if name in self.MATH1: return tm.fn(self.MATH1[name], self.as_real(args[0]))
        if name in ("pow", "powf"):
            x, y = self.as_real(args[0]), self.as_real(args[1])
            return tm.pw(x, y)
        if name == "log10": return tm.div(tm.log(self.as_real(args[0])), tm.log(tm.num(10)))
        if name == "tan": x = self.as_real(args[0]); return tm.div(tm.sin(x), tm.cos(x))
        if name == "cbrt": return tm.pw(self.as_real(args[0]), tm.num(Fraction(1, 3)))
        if name == "log1p": return tm.log(tm.add(ONE, self.as_real(args[0])))
        if name == "expm1": return tm.sub(tm.exp(self.as_real(args[0])), ONE)
        if name == "hypot": 
            x, y = self.as_real(args[0]), self.as_real(args[1])
            return tm.sqrt(x * x + y * y)
        if name in ("fmax", "fmin"):
            x, y = self.as_real(args[0]), self.as_real(args[1])
            return tm.ite(tm.lt(y, x), x, y) if name == "fmax" else tm.ite(tm.lt(x, y), x, y)
        if name in ("abs", "labs"):
            x = self.as_int(args[0])
            return tm.ite(tm.lt(x, IZERO), tm.neg(x), x)
        if name == "malloc": return self.alloc(st, self.as_int(args[0]), False)
        if name == "calloc": return self.alloc(st, tm.mul(self.as_int(args[0]), self.as_int(args[1])), True)
        if name == "free":
            self.free(st, args[0], n); return None
        if name == "memset":
            p = args[0]
            if args[1] is not IZERO or not isinstance(p, Ptr): raise Unsupported("memset")
            return self.memfill(st, p, self.as_int(args[2]), None, n)
        if name in ("memcpy", "memmove"): return self.memfill(st, args[0], self.as_int(args[2]), args[1], n)
        if name == "strcmp":
            a, b = args
            if isinstance(a, T) and isinstance(b, T): return tm.ite(tm.eq(a, b), IZERO, IONE)
            raise Unsupported("strcmp")
        if name == "fopen": return OPQ
        if name in self.NOEFFECT: return tm.fresh("lib", "I")
        if name in ("omp_get_max_threads", "omp_get_num_threads", "omp_get_num_procs"): return tm.var(name, "I")
        if name == "omp_get_thread_num": return tm.var("thread_num", "I")
        if name in ("omp_get_wtime", "difftime"): return tm.fresh("lib", "R")
        if name in ("exit", "abort"): raise ExitSig()
        h = self.cuts.get(name)
        if h: 
            r = h(self, st, args, n, None)
            if r is not NotImplemented: return r
        raise Unsupported("external function " + name)
    def memfill(self, st, p, nbytes, src, n):
        p, v = self.norm(st, p, n)
        if not isinstance(v, Ar): 
            if src is not None:
                q, w = self.norm(st, src, n)
                if not isinstance(w, Ar): self.store(st, p, w, n); return p
            raise Unsupported("memset/memcpy of a non-array")
        ty = self.types.get(p.obj, "double")
        cnt = tm.idiv(nbytes, tm.num(8 if v.t.s == "AR" else SIZES.get(clean(ty), 8), "I"))
        last = tm.sub(tm.add(p.off, cnt), IONE)
        self.oblige("bounds", st, tm.or_(tm.le(cnt, IZERO), tm.and_(tm.le(IZERO, p.off), tm.lt(last, v.n))), n)
        self.live(st, p.obj, n)
        if self.writes is not None and not self.quiet:
            self.writes.append((Ptr(p.obj, p.path, None), st.guards, st.facts, self.where(n), self.exclusive))
        if src is not None:
            q, w = self.norm(st, src, n)
            self.live(st, q.obj, n)
            lastq = tm.sub(tm.add(q.off, cnt), IONE)
            self.oblige("bounds", st, tm.or_(tm.le(cnt, IZERO), tm.and_(tm.le(IZERO, q.off), tm.lt(lastq, w.n))), n)
        zero = tm.num(0, v.t.s[1:])
        def val(j): return zero if src is None else tm.sel(w.t, tm.add(tm.sub(j, p.off), q.off))
        if cnt.op == "num" and cnt.a[0] <= UNROLL:
            t = v.t
            for i in range(cnt.a[0]):
                j = tm.add(p.off, tm.num(i, "I"))
                t = tm.store(t, j, val(j))
        else:
            t = tm.lam(lambda j: tm.ite(tm.and_(tm.le(p.off, j), tm.lt(j, tm.add(p.off, cnt))), val(j), tm.sel(v.t, j)))
        st.mem[p.obj] = self.upd(self.root(st, p.obj), p.path, Ar(t, v.n))
        return p

    # -------------------------------------------------------------- statements
    # ex returns a list of outcomes (kind, state, value); kinds: next ret brk cont exit
    def ex(self, n, st):
        m = getattr(self, "ex_" + n.k, None)
        try:
            if m is None:
                self.ev(n, st)
                return [("next", st, None)]
            return m(n, st)
        except ExitSig:
            return [("exit", st, None)]
    def ex_Nop(self, n, st): return [("next", st, None)]
    def ex_Null(self, n, st): return [("next", st, None)]
    def ex_Decls(self, n, st):
        fr = self.frames[-1]
        for v in n.c:
            if v.k != "Var": continue
            vid, storage = v.x
            if storage == "extern": continue
            if storage == "static":
                o = ("fs", fr.fn.file, fr.fn.name, v.v)
                fr.vars[vid] = o
                self.types[o] = v.ty
                if o not in st.mem and o not in self.inputs:
                    if v.ty.startswith("const ") and v.c: self.inputs[o] = self.initval(v.c[0], v.ty, st, None)
                    else: self.inputs[o] = self.symval("%s:%s" % (fr.fn.name, v.v), v.ty)
                continue
            o = ("l", self.newid(), v.v)
            if v.c: val = self.initval(v.c[0], v.ty, st, None)
            else: val = self.undef(st, v.ty)
            fr.vars[vid] = o
            st.mem[o] = val
            self.types[o] = v.ty
        return [("next", st, None)]
    def ex_Block(self, n, st): return self.seq(n.c, 0, st)
    def seq(self, stmts, i, st):
        outs = []
        while i < len(stmts):
            base = st.copy()
            r = self.ex(stmts[i], st)
            nx = [s for k, s, v in r if k == "next"]
            outs += [o for o in r if o[0] != "next"]
            if not nx: return self.tidy(outs)
            st = nx[0]
            for s in nx[1:]:
                st = self.joinc(base, st, s)
            i += 1
        outs.append(("next", st, None))
        return outs
    def joinc(self, base, a, b):
        try: return self.join2(base, a, b)
        except Unmergeable:
            nb = len(base.guards)
            c = tm.and_(*a.guards[nb:])
            self._forked = True
            return a if self.choose(base, c) else b
    def tidy(self, outs): return outs
    def ex_If(self, n, st):
        ch = list(n.c)
        c = self.as_bool(self.ev(ch[0], st))
        d = self.decide(st, c)
        if d is None and c.op != "ite": d = self.deepdecide(st, c)
        if d is TRUE: return self.ex(ch[1], st)
        if d is FALSE: return self.ex(ch[2], st) if len(ch) > 2 else [("next", st, None)]
        s1, s2 = st, st.copy()
        base = st.copy()
        s1.guards = s1.guards + (c,)
        s2.guards = s2.guards + (tm.not_(c),)
        o1 = self.ex(ch[1], s1)
        o2 = self.ex(ch[2], s2) if len(ch) > 2 else [("next", s2, None)]
        return self.joinouts(base, o1 + o2)
    def deepdecide(self, st, c): return None
    def joinouts(self, base, outs):
        """merge the outcomes of the same kind"""
        res = []
        for kind in ("next", "ret", "brk", "cont", "exit"):
            l = [(s, v) for k, s, v in outs if k == kind]
            if not l: continue
            if kind == "exit":
                res.append((kind, l[0][0], None)); continue
            s, v = l[0]
            for s2, v2 in l[1:]: s, v = self.joinv(base, s, v, s2, v2)
            res.append((kind, s, v))
        if len(res) == 1 and res[0][0] == "next":
            # both branches fall through: the guard is a tautology
            s = res[0][1]
            if not getattr(self, "_forked", False): s.guards = base.guards
        return res
    def ex_Ret(self, n, st):
        v = None
        if n.c:
            v = self.ev(n.c[0], st)
            if isinstance(v, Ptr) and clean(self.frames[-1].fn.ret) in self.P.recs: v = self.load(st, v, n)
            if isinstance(v, T): v = self.coerce(v, self.frames[-1].fn.ret)
        return [("ret", st, v)]
    def ex_Brk(self, n, st): return [("brk", st, None)]
    def ex_Cont(self, n, st): return [("cont", st, None)]
    def ex_Switch(self, n, st):
        v = self.as_int(self.ev(n.c[0], st))
        body = n.c[1]
        # flatten: list of (label values or None) and statements
        items = []
        def flat(x):
            if x.k == "Case":
                items.append(("case", x.c[0])); flat(x.c[-1])
            elif x.k == "Default":
                items.append(("default", None)); flat(x.c[-1])
            else: items.append(("stmt", x))
        for x in body.c: flat(x)
        labels = [(i, it) for i, it in enumerate(items) if it[0] != "stmt"]
        base = st.copy()
        outs, neg = [], []
        default = None
        def runfrom(i, s):
            r = self.seq([it[1] for it in items[i:] if it[0] == "stmt"], 0, s)
            return [("next" if k == "brk" else k, s2, v2) for k, s2, v2 in r]
        for i, it in labels:
            if it[0] == "default": default = i; continue
            c = tm.eq(v, self.as_int(self.ev(it[1], st)))
            s = st.copy()
            d = self.decide(s, c)
            if d is FALSE: continue
            s.guards = s.guards + tuple(neg) + ((c,) if d is not TRUE else ())
            outs += runfrom(i, s)
            if d is TRUE: neg = None; break
            neg.append(tm.not_(c))
        if neg is not None:
            s = st.copy()
            s.guards = s.guards + tuple(neg)
            if default is not None: outs += runfrom(default, s)
            else: outs.append(("next", s, None))
        return self.joinouts(base, outs)
    def ex_While(self, n, st): return self.loop(n, None, n.c[-2], None, n.c[-1], st)
    def ex_For(self, n, st):
        init, cond, inc, body = n.c[0], n.c[-3], n.c[-2], n.c[-1]
        if init.k != "Null":
            r = self.ex(init, st)
            st = r[0][1]
        return self.loop(n, None, cond if cond.k != "Null" else None, inc if inc.k != "Null" else None, body, st)
    def ex_Do(self, n, st):
        body, cond = n.c
        base = st.copy()
        r = self.ex(body, st)
        nx = [(s) for k, s, v in r if k in ("next", "cont")]
        outs = [("next", s, None) for k, s, v in r if k == "brk"] + [o for o in r if o[0] in ("ret", "exit")]
        if nx:
            s = nx[0]
            for s2 in nx[1:]: s = self.joinc(base, s, s2)
            outs += self.loop(n, None, cond, None, body, s)
        return self.joinouts(base, outs)


    # -------------------------------------------------------------- loops
    def iterate(self, s, cond, inc, body):
        """one iteration from loop top: (condition, state after the condition, outcomes of body and increment)"""
        c = TRUE if cond is None else self.as_bool(self.ev(cond, s))
        s_c = s.copy()
        base = s.copy()
        d = self.decide(s, c)
        if d is FALSE: return c, s_c, []
        if d is not TRUE and c is not TRUE: s.guards = s.guards + (c,)
        outs = self.ex(body, s)
        res, nx = [], []
        for k, s2, v in outs:
            if k in ("next", "cont"): nx.append(s2)
            else: res.append((k, s2, v))
        if nx:
            t = nx[0]
            for s2 in nx[1:]: t = self.joinc(base, t, s2)
            if inc is not None: self.ev(inc, t)
            res.append(("next", t, None))
        return c, s_c, res

    def manytrips(self, cond, st):
        """a counted loop with a constant number of iterations beyond unrolling"""
        if cond is None or cond.k != "Bin" or cond.v not in ("<", "<=", "!="): return False
        s = st.copy()
        self.quiet += 1
        try: a, b = self.ev(cond.c[0], s), self.ev(cond.c[1], s)
        except Unsupported: return False
        finally: self.quiet -= 1
        return isinstance(a, T) and isinstance(b, T) and a.op == "num" and b.op == "num" and b.a[0] - a.a[0] > 2 * UNROLL

    def loop(self, n, _, cond, inc, body, st, omp=None):
        base = st.copy()
        if omp is None:
            s, k, done = st.copy(), 0, []
            nob = len(self.obls)
            while k <= UNROLL and not (k == 0 and self.manytrips(cond, st)):
                s0 = s.copy()
                c = TRUE if cond is None else self.as_bool(self.ev(cond, s0))
                if c is FALSE:
                    done.append(("next", s0, None))
                    return self.joinouts(base, done)
                if c is not TRUE or (cond is None and k > 0): break
                self.nunroll += 1
                _, _, outs = self.iterate(s, cond, inc, body)
                nx = None
                for kk, s2, v in outs:
                    if kk == "next": nx = s2
                    elif kk == "brk": done.append(("next", s2, None))
                    else: done.append((kk, s2, v))
                if nx is None: return self.joinouts(base, done)
                s = nx
                k += 1
            if k > 0: del self.obls[nob:]
        self.nloops += 1
        return self.joinouts(base, self.symloop(n, cond, inc, body, base.copy(), omp))

    # cells: ("s",obj,path) scalars and pointers; ("a",obj,path) arrays; ("e",obj,path,index) array elements
    def getcell(self, st, c):
        v = self.sub(self.root(st, c[1]), c[2])
        if c[0] == "e": return tm.sel(v.t, c[3])
        if c[0] == "a": return v.t
        if isinstance(v, Ptr): return v.off
        return v
    def setcell(self, st, c, val):
        r = self.root(st, c[1])
        v = self.sub(r, c[2])
        if c[0] == "e": new = Ar(tm.store(v.t, c[3], val), v.n)
        elif c[0] == "a": new = Ar(val, v.n)
        elif isinstance(v, Ptr): new = Ptr(v.obj, v.path, val)
        else: new = val
        st.mem[c[1]] = self.upd(r, c[2], new)
    def diffv(self, o, path, a, b, out):
        if a is b: return
        if isinstance(a, T) and isinstance(b, T): out[("s", o, path)] = None
        elif isinstance(a, Ar) and isinstance(b, Ar):
            if a.n is not b.n: raise Unsupported("array changes length in a loop")
            if a.t is b.t: return
            idx = self.touched(b.t, a.t)
            if idx is None: out[("a", o, path)] = None
            else:
                for i in idx: out[("e", o, path, i)] = None
        elif isinstance(a, St) and isinstance(b, St):
            for f in a.f: self.diffv(o, path + (f,), a.f[f], b.f[f], out)
        elif isinstance(a, Ls) and isinstance(b, Ls):
            for i in range(len(a.v)): self.diffv(o, path + (i,), a.v[i], b.v[i], out)
        elif isinstance(a, Ptr) and isinstance(b, Ptr):
            if a == b: return
            if a.cell() == b.cell(): out[("s", o, path)] = None
            else: raise Unsupported("pointer retargeted in a loop")
        elif a == b: return
        else: raise Unsupported("value changes kind in a loop")
    def touched(self, t, base):
        """indices stored to between base and t, or None when not a plain list"""
        out, seen, stck = [], set(), [t]
        suf, y, over = {base: ()}, base, ()
        while y.op == "store":
            over = over + (y.a[1],)
            y = y.a[0]
            suf[y] = over
        while stck:
            x = stck.pop()
            if x in suf:
                for i in suf[x]:
                    if i not in out: out.append(i)
                continue
            if x in seen: continue
            seen.add(x)
            if x.op == "store":
                if x.a[1] not in out: out.append(x.a[1])
                stck.append(x.a[0])
            elif x.op == "ite": stck += [x.a[1], x.a[2]]
            else: return None
            if len(out) > 48: return None
        return out
    def diff(self, base, outs):
        ch = {}
        for k, s, v in outs:
            if k == "exit": continue
            for o, val in s.mem.items():
                old = base.mem.get(o)
                if old is None:
                    old = self.inputs.get(o)
                    if old is None: continue
                if old is val: continue
                self.diffv(o, (), old, val, ch)
            for o, al in s.alive.items():
                if o in base.alive and base.alive[o] is not al: raise Unsupported("block released in a loop")
                if o not in base.alive and not (o[0] == "h"): raise Unsupported("block released in a loop")
        return ch
    def normcells(self, M, hs, it):
        """element cells whose index varies, or that may coincide, become whole-array cells"""
        groups = {}
        for c in M:
            if c[0] in "ae": groups.setdefault((c[1], c[2]), []).append(c)
        out = dict.fromkeys(c for c in M if c[0] == "s")
        bad = set(hs) | {it}
        for (o, p), cs in groups.items():
            ok = all(c[0] == "e" for c in cs)
            if ok:
                idx = [c[3] for c in cs]
                if len(idx) > 1 and not all(tm.sub(i, idx[0]).op == "num" for i in idx[1:]): ok = False
                if any(i.fv & bad for i in idx): ok = False
            if ok:
                for c in cs: out[c] = None
            else: out[("a", o, p)] = None
        return out

    def delta(self, t, h):
        """t = h + d, with d free of h; None otherwise"""
        if t is h: return tm.num(0, t.s)
        if h not in t.fv: return None
        if t.op == "add":
            w = [x for x in t.a if h in x.fv]
            if len(w) != 1: return None
            d = self.delta(w[0], h)
            if d is None: return None
            return tm.add(d, *[x for x in t.a if x is not w[0]])
        if t.op == "ite":
            if h in t.a[0].fv: return None
            a, b = self.delta(t.a[1], h), self.delta(t.a[2], h)
            if a is None or b is None: return None
            return tm.ite(t.a[0], a, b)
        if t.op == "i2r": return None
        return None
    def affine(self, t, it):
        """t = c + s*it with integer constant s; (s, c) or None"""
        if it not in t.fv: return 0, t
        if t is it: return 1, IZERO
        if t.op == "add":
            s, c = 0, []
            for x in t.a:
                r = self.affine(x, it)
                if r is None: return None
                s += r[0]; c.append(r[1])
            return s, tm.add(*c)
        if t.op == "mul":
            if t.a[0].op == "num" and len(t.a) == 2:
                r = self.affine(t.a[1], it)
                if r is None: return None
                return r[0] * t.a[0].a[0], tm.mul(t.a[0], r[1])
        return None
    def trip(self, c, it, st):
        """(iteration count, remaining condition): the linear conjunct that bounds the loop"""
        parts = list(c.a) if c.op == "and" else [c]
        for k, p in enumerate(parts):
            N_ = None
            if p.op == "lt" and p.a[0].s == "I":
                e = self.affine(tm.sub(p.a[1], p.a[0]), it)
                if e and e[0] < 0:
                    s, c0 = -e[0], e[1]
                    q = c0 if s == 1 else tm.idiv(tm.add(c0, tm.num(s - 1, "I")), tm.num(s, "I"))
                    N_ = q if self.nonneg(st, c0) else tm.ite(tm.lt(IZERO, c0), q, IZERO)
            elif p.op == "not" and p.a[0].op == "eq" and p.a[0].a[0].s == "I":
                x, y = p.a[0].a
                e = self.affine(tm.sub(y, x), it)
                if e and abs(e[0]) == 1:
                    q = tm.neg(e[1]) if e[0] == 1 else e[1]
                    if self.nonneg(st, q): N_ = q
                    else: N_ = tm.ite(tm.lt(IZERO, q), q, IZERO); self.notes.append("loop bound by != assumed reached from below")
            if N_ is not None:
                rest = parts[:k] + parts[k + 1:]
                return N_, tm.and_(*rest)
        return None, c

    def symloop(self, node, cond, inc, body, st, omp):
        lid = self.newid()
        it = tm.var("it%d" % lid, "I")
        base = st
        M = {}
        guess = {}
        v0 = {}
        hs = {}
        fr = self.frames[-1]
        def start(quietfacts):
            s = base.copy()
            s.loopvars = s.loopvars + (it,)
            s.facts = s.facts + tuple(quietfacts)
            for c in M:
                self.setcell(s, c, guess[c] if c in guess else hs[c])
            return s
        def run(facts, quiet):
            s = start(facts)
            s00 = s.copy()
            if quiet: self.quiet += 1
            try: c, sc, outs = self.iterate(s, cond, inc, body)
            finally:
                if quiet: self.quiet -= 1
            return s00, c, sc, outs
        def nextstate(outs):
            for k, s, v in outs:
                if k == "next": return s
            return None
        # ---- which cells change
        first = True
        for rnd in range(10):
            s00, c, sc, outs = run([tm.le(IZERO, it)], True)
            allouts = outs + [("next", sc, None)]
            ch = self.diff(s00, allouts)
            nx = nextstate(outs)
            new = [x for x in ch if x not in M and not (x[0] == "e" and ("a", x[1], x[2]) in M)]
            bad = []
            for x in list(guess):
                nv = self.getcell(nx, x) if nx is not None else guess[x]
                want = tm.subst(guess[x], {it: tm.add(it, IONE)})
                if nv is not want and not self.inteq(nv, want):
                    bad.append(x)
            if not new and not bad: break
            for x in bad: del guess[x]
            nM = self.normcells(list(M) + new, hs.values(), it)
            for x in list(guess):
                if x not in nM: del guess[x]
            for x in nM:
                if x not in M or x not in v0:
                    v0[x] = self.getcell(base, x)
                    if not isinstance(v0[x], T): raise Unsupported("loop changes a non-scalar")
                    hs[x] = tm.var("h%d_%d" % (lid, len(hs)), v0[x].s)
                    if first and nx is not None and x[0] == "s" and v0[x].s == "I":
                        nv = self.getcell(nx, x)
                        d = tm.sub(nv, v0[x]) if isinstance(nv, T) and nv.s == "I" else None
                        if d is not None and d.op == "num" and d.a[0] != 0:
                            guess[x] = tm.add(v0[x], tm.mul(d, it))
            M = nM
            first = False
        else: raise Unsupported("loop analysis does not settle")
        # ---- trip count
        if nextstate(outs) is None:
            # the body never continues: at most one pass
            s = base.copy()
            c, sc, outs = self.iterate(s, cond, inc, body)
            sc.guards = sc.guards + (tm.not_(c),)
            return [("next", sc, None)] + [("next" if k == "brk" else k, s, v) for k, s, v in outs]
        N_, rest = self.trip(c, it, s00)
        if N_ is not None and (N_.fv & set(hs.values())): N_, rest = None, c
        if N_ is None and cond is not None:
            return self.whileloop(node, cond, inc, body, base, M, it, lid)
        facts = [tm.le(IZERO, it)]
        if N_ is not None: facts.append(tm.lt(it, N_))
        # ---- final pass
        oldw, oldr = self.writes, self.reads
        if omp is not None: self.writes, self.reads = [], []
        elif self.writes is None: pass
        s00, c, sc, outs = run(facts, False)
        if omp is not None:
            self.races(omp, it, s00)
            self.writes, self.reads = oldw, oldr
        ch = self.diff(s00, outs + [("next", sc, None)])
        for x in ch:
            if x not in M and not (x[0] == "e" and ("a", x[1], x[2]) in M): raise Unsupported("loop analysis: new cell")
        nx = nextstate(outs)
        if nx is None:
            raise Unsupported("loop never continues")
        for o, al in nx.alive.items():
            if o not in base.alive and al is not FALSE and o[0] == "h": self.oblige("leak-in-loop", nx, tm.not_(al), node)
        # ---- solve
        cur, nvs = {}, {}
        hset = {}
        for x in M:
            h = guess.get(x)
            if h is None: hset[hs[x]] = x
        for x in M:
            if x in guess: continue
            nvs[x] = self.getcell(nx, x)
        sol = {}
        unres = dict((x, True) for x in nvs)
        private = (lambda x: False) if omp is None else (lambda x: x[1] not in omp["shared"])
        sub = {}
        def resolve():
            prog = True
            while prog and unres:
                prog = False
                for x in list(unres):
                    h = hs[x]
                    nv = tm.subst(nvs[x], sub) if sub else nvs[x]
                    others = {hs[y] for y in unres if y != x}
                    if nv.fv & others and x[0] != "a":
                        continue
                    r = None
                    if nv is h: r = v0[x]
                    elif private(x): r = None
                    elif x[0] == "a": r = None if nv.fv & others else self.solve_array(h, nv, it, v0[x], base, facts)
                    elif h not in nv.fv:
                        prev = tm.subst(nv, {it: tm.sub(it, IONE)})
                        r = tm.ite(tm.eq(it, IZERO), v0[x], prev)
                    else:
                        d = self.delta(nv, h)
                        if d is not None:
                            if it not in d.fv: r = tm.add(v0[x], tm.mul(tm.lift(it, d.s), d))
                            elif d.s == "R":
                                b = tm.fresh("sb", "I")
                                r = tm.add(v0[x], tm.sum_b(b, IZERO, it, tm.subst(d, {it: b})))
                    if r is not None:
                        sol[x] = r
                        sub[h] = r
                        # solved values must not mention later ones
                        del unres[x]
                        prog = True
        resolve()
        if unres and self.templates(unres, nvs, sub, sol, v0, hs, it, base, private): resolve()
        # what is known of the exits of inner loops, in terms of the values at this iteration
        gone = set(hs[x] for x in unres)
        for nm, (ps, fs) in list(self.tmpl.items()):
            if it in ps:
                fs = [tm.subst(f, sub) for f in fs]
                self.tmpl[nm] = (ps, [] if any(f.fv & gone for f in fs) else fs)
        for x in M:
            if x in guess: sol[x] = guess[x]; 
        # ---- exits
        res = []
        brks = [(k, s, v) for k, s, v in outs if k in ("brk", "ret")]
        nb = len(s00.guards)
        fin = {}
        for x in unres: fin[hs[x]] = None
        def close(t, at):
            """value at the exit: solved cells substituted, unresolved ones unknown"""
            if not isinstance(t, T): return t
            if sub: t = tm.subst(t, sub)
            t = tm.subst(t, {it: at})
            left = [h for h in t.fv if h in fin]
            if left:
                m = {}
                for h in left:
                    if fin[h] is None: fin[h] = self.fresh(base, "left", h.s)
                    m[h] = fin[h]
                t = tm.subst(t, m)
            return t
        self._unres = [x for x in unres]
        bcs = []
        if rest is not TRUE: bcs.append(tm.not_(rest))
        for k, s, v in brks: bcs.append(tm.and_(*s.guards[nb:]))
        if not bcs:
            if N_ is None:
                self.notes.append("infinite loop")
                return [("exit", base, None)]
            e = base.copy()
            for x in M: self.setcell(e, x, close(sol[x], N_) if x in sol else self.closeu(close, hs[x], N_))
            self.newobjs(e, nx, base)
            # side effects of the last, failing, condition
            if cond is not None:
                g = e.guards
                self.quiet += 1
                try: self.ev(cond, e)
                finally: self.quiet -= 1
                e.guards = g
            return [("next", e, None)]
        if any(tm.subst(b, sub).fv & set(fin) for b in bcs):
            return self.whileloop(node, cond, inc, body, base, M, it, lid)
        bc = tm.or_(*[tm.subst(b, sub) if sub else b for b in bcs])
        m = self.fresh(base, "exit", "I")
        j = tm.fresh("j", "I")
        N2 = N_
        fs = [tm.le(IZERO, m)]
        if N2 is not None: fs += [tm.le(m, N2), tm.implies(tm.lt(m, N2), tm.subst(bc, {it: m}))]
        else: fs += [tm.subst(bc, {it: m})]
        fs.append(tm.forall(IZERO, m, lambda q: tm.not_(tm.subst(bc, {it: q}))))
        self.skolem(m, base, fs if N2 is not None else [])
        mlt = tm.lt(m, N2) if N2 is not None else TRUE
        outl = []
        if N2 is not None:
            e = base.copy()
            e.facts = e.facts + tuple(fs)
            e.guards = e.guards + (tm.eq(m, N2),)
            for x in M: self.setcell(e, x, close(sol[x], m) if x in sol else self.closeu(close, hs[x], m))
            if cond is not None:
                g = e.guards
                self.quiet += 1
                try: self.ev(cond, e)
                finally: self.quiet -= 1
                e.guards = g
            outl.append(("next", e, None))
        if rest is not TRUE:
            e = base.copy()
            e.facts = e.facts + tuple(fs)
            e.guards = e.guards + (mlt, close(tm.not_(rest), m))
            for x in M: self.setcell(e, x, close(self.getcell(sc, x), m))
            outl.append(("next", e, None))
        for k, s, v in brks:
            e = base.copy()
            e.facts = e.facts + tuple(fs)
            e.guards = e.guards + (mlt, close(tm.and_(*s.guards[nb:]), m))
            for x in M: self.setcell(e, x, close(self.getcell(s, x), m))
            self.newobjs(e, s, base)
            if k == "ret": outl.append(("ret", e, self.closeval(close, v, m)))
            else: outl.append(("next", e, None))
        return outl
    def newobjs(self, e, s, base): pass
    def closeu(self, close, h, at): return close(h, at)
    def closeval(self, close, v, m):
        if isinstance(v, T): return close(v, m)
        if isinstance(v, Ptr): return Ptr(v.obj, v.path, close(v.off, m))
        if v is None or isinstance(v, (Opaque, FnPtr)): return v
        raise Unsupported("struct returned from a loop")
    def inteq(self, a, b):
        if a.s != "I" or b.s != "I": return False
        return tm.sub(a, b) is IZERO
    def skolem(self, m, st, facts):
        """facts about an index chosen per outer iteration"""
        if m.op == "ifn": self.tmpl[m.a[0]] = (tuple(m.a[1:]), facts)
        self.exits = getattr(self, "exits", [])
        self.exits.append(m)
    def whileloop(self, node, cond, inc, body, base, M, it, lid):
        """no closed form: an arbitrary number of iterations from arbitrary values of the modified cells;
        what is known after the loop is that the last iteration ended with the condition false"""
        self.notes.append("loop abstracted at %s" % self.where(node))
        outl = []
        e0 = base.copy()
        c0 = TRUE if cond is None else self.as_bool(self.ev(cond, e0))
        d0 = self.decide(e0, c0)
        if d0 is None and c0.op in ("lt", "not"): d0 = self.realdecide(e0, c0)
        if d0 is not TRUE:
            if d0 is not FALSE: e0.guards = e0.guards + (tm.not_(c0),)
            outl.append(("next", e0, None))
        if d0 is FALSE: return outl
        s = base.copy()
        fresh = {}
        for x in M:
            v = self.getcell(base, x)
            fresh[x] = self.fresh(base, "loop", v.s)
            self.setcell(s, x, fresh[x])
        inv = self.houdini(base, M, fresh, cond, inc, body)
        if inv: s.facts = s.facts + tuple(f([fresh[x] for x in M]) for f in inv)
        nb, ob = len(s.guards), len(self.obls)
        c, sc, outs = self.iterate(s, cond, inc, body)
        named = None if inv else self.samename(M, fresh, c, outs, base)
        if named:
            # the final values are a function of the initial ones
            del self.obls[ob:]
            s = base.copy()
            for x in M: self.setcell(s, x, named[x])
            fresh = named
            c, sc, outs = self.iterate(s, cond, inc, body)
        for k, s2, v in outs:
            if k == "brk": outl.append(("next", s2, None))
            elif k == "next":
                if cond is None: continue
                self.quiet += 1
                try: c2 = self.as_bool(self.ev(cond, s2))
                finally: self.quiet -= 1
                s2.guards = s2.guards + (tm.not_(c2),)
                outl.append(("next", s2, None))
            else: outl.append((k, s2, v))
        # guards are turned into facts: they hold of the last iteration whenever the loop ran
        if len(outl) == 1 and outl[0][0] == "next":
            e = outl[0][1]
            e.facts = e.facts + tuple(e.guards[nb:])
            if base.loopvars: self.tmpl["while%d" % lid] = (tuple(base.loopvars), list(e.guards[nb:]))
            e.guards = e.guards[:nb]
        return outl
    def houdini(self, base, M, fresh, cond, inc, body):
        """the invariants a contract offers for a loop without closed form: those that hold at its start and that one
        iteration preserves, assuming the others"""
        offer = self.opts.get("invariants")
        if not offer or not all(fresh[x].s == "I" for x in M): return []
        vals = [self.getcell(base, x) for x in M]
        inv = [f for f in offer(len(M)) if solve.entails(base.ctx(), f(vals), 1000)]
        while inv:
            s = base.copy()
            for x in M: self.setcell(s, x, fresh[x])
            s.facts = s.facts + tuple(f([fresh[x] for x in M]) for f in inv)
            self.quiet += 1
            try: c, sc, outs = self.iterate(s, cond, inc, body)
            finally: self.quiet -= 1
            keep = inv
            for k, s2, v in outs:
                if k != "next": continue
                now = [self.getcell(s2, x) for x in M]
                keep = [f for f in keep if solve.entails(s2.ctx(), f(now), 1000)]
            if len(keep) == len(inv): return inv
            inv = keep
        return []
    WHILES = {}
    def samename(self, M, fresh, c, outs, base):
        """names for the values a loop without closed form ends with: the same loop body from the same initial values
        gives the same results"""
        nx = [s2 for k, s2, v in outs if k == "next"]
        if len(nx) != 1 or len(outs) != 1: return None
        ts = [c] + [self.getcell(nx[0], x) for x in M]
        if not all(isinstance(t, T) for t in ts): return None
        m = {}
        for i, x in enumerate(M):
            m[fresh[x]] = tm.var("cell!%d" % i, fresh[x].s)
            if fresh[x].s not in ("R", "I"): return None
        for i, v in enumerate(base.loopvars): m[v] = tm.var("cell!loop%d" % i, "I")
        ts = [tm.subst(t, m) for t in ts]
        fv = set()
        for t in ts: fv |= t.fv
        if any(v.a[0].startswith(("left~", "exit~", "loop~", "h")) and v not in m.values() for v in fv if v.op == "var"): return None
        for t in ts:
            if any(x.op in ("fn", "ifn") and str(x.a[0]).startswith(("left~", "exit~", "loop~")) for x in tm.subterms(t)): return None
        key = self.WHILES.setdefault(tuple(ts), len(self.WHILES))
        # the initial values each final value depends on
        dep = dict((x, set(ts[i + 1].fv)) for i, x in enumerate(M))
        out = {}
        for i, x in enumerate(M):
            d, n = dep[x] | ts[0].fv, -1
            while n != len(d):
                n = len(d)
                for y in M:
                    if m[fresh[y]] in d: d = d | dep[y]
            args = [self.getcell(base, y) for y in M if m[fresh[y]] in d] + [v for v in base.loopvars if m[v] in d]
            args = [tm.i2r(t) if t.s == "I" else t for t in args]
            out[x] = (tm.fn if fresh[x].s == "R" else tm.ifn)("WHILE%d_%d" % (key, i), *args)
        return out
    def realdecide(self, st, c):
        if solve.entails(st.ctx(), c, 1000): return TRUE
        if solve.entails(st.ctx(), tm.not_(c), 1000): return FALSE
        return None
    def templates(self, unres, nvs, sub, sol, v0, hs, it, base, private):
        """contract-supplied invariants for recurrences: cell = template(it)"""
        tl = self.opts.get("templates")
        if not tl: return
        cells = [x for x in unres if v0[x].s == "R" and not private(x)]
        if not cells: return
        eqs = self.opts["eq"]
        cand = {}
        for x in cells:
            cand[x] = []
            params = None
            for mk in tl:
                for t in mk(self, x, it, nvs, hs):
                    if eqs(tm.subst(t, {it: IZERO}), v0[x], base): cand[x].append(t)
        cells = [x for x in cells if cand[x]]
        import itertools
        n = 0
        for combo in itertools.product(*[cand[x] for x in cells]):
            n += 1
            if n > 60: return
            m = {hs[x]: t for x, t in zip(cells, combo)}
            ok = True
            for x, t in zip(cells, combo):
                nv = tm.subst(tm.subst(nvs[x], sub), m) if sub else tm.subst(nvs[x], m)
                want = tm.subst(t, {it: tm.add(it, IONE)})
                if not eqs(nv, want, base, it): ok = False; break
            if ok:
                for x, t in zip(cells, combo):
                    sol[x] = t; sub[hs[x]] = t; del unres[x]
                return True
    # ---- arrays written in a loop
    def collect(self, t, h):
        """program-ordered writes (guard, index, value) or (guard, ("lam", binder, cond), value)"""
        if t is h: return []
        if t.op == "store":
            r = self.collect(t.a[0], h)
            if r is None: return None
            return r + [(TRUE, t.a[1], t.a[2])]
        if t.op == "ite":
            if h in t.a[0].fv and any(x.op == "sel" for x in tm.subterms(t.a[0])): pass
            a, b = self.collect(t.a[1], h), self.collect(t.a[2], h)
            if a is None or b is None: return None
            i = 0
            while i < len(a) and i < len(b) and a[i] == b[i]: i += 1
            c = t.a[0]
            return a[:i] + [(tm.and_(c, g), x, v) for g, x, v in a[i:]] + [(tm.and_(tm.not_(c), g), x, v) for g, x, v in b[i:]]
        if t.op == "lam":
            b = tm.fresh("lj", "I")
            body = tm.subst(t.a[1], {t.a[0]: b})
            return self.lamwrites(body, b, h, TRUE)
        return None
    def lamwrites(self, body, b, h, g):
        old = tm.sel(h, b)
        if body is old: return []
        if body.op == "ite":
            c, x, y = body.a
            if b not in c.fv:
                X, Y = self.lamwrites(x, b, h, tm.and_(g, c)), self.lamwrites(y, b, h, tm.and_(g, tm.not_(c)))
                if X is None or Y is None: return None
                return X + Y
            if y is old: return [(g, ("lam", b, c), x)]
            if x is old: return [(g, ("lam", b, tm.not_(c)), y)]
            Y = self.lamwrites(y, b, h, g)
            if Y is None: return None
            return Y + [(g, ("lam", b, c), x)]
        if h in body.fv:
            return None
        return [(g, ("lam", b, TRUE), body)]
    def solve_array(self, h, nv, it, v0, base, facts):
        if h not in nv.fv and nv.op != "store" :
            prev = tm.subst(nv, {it: tm.sub(it, IONE)})
            return tm.ite(tm.eq(it, IZERO), v0, prev)
        ws = self.collect(nv, h)
        if ws is None or not ws: return None
        inv = []
        for g, idx, val in ws:
            if isinstance(idx, T):
                a = self.affine(idx, it)
                if a is None or a[0] == 0 or a[1].fv & {it}: return None
                inv.append(("pt", a[0], a[1]))
            else:
                _, b, c = idx
                if it not in c.fv:
                    inv.append(("all", b, c))
                else:
                    r = self.rowinv(b, c, it, base, facts)
                    if r is None: return None
                    inv.append(("row", b, c, r))
        # values must only read the element they replace
        nws = []
        apart = all(self.exclusive_residues(p, q) for i, p in enumerate(inv) for q in inv[:i])
        for (g, idx, val), iv in zip(ws, inv):
            if h in val.fv or h in g.fv:
                at = idx if isinstance(idx, T) else idx[1]
                m = {tm.sel(h, at): tm.sel(v0, at)}
                val, g = tm.subst(val, m), tm.subst(g, m)
                if h in val.fv or h in g.fv or (len(ws) > 1 and not apart) or iv[0] == "all": return None
            nws.append((g, idx, val))
        if any(iv[0] == "all" for iv in inv):
            if len(inv) != 1: return None
            g, (_, b, c), val = nws[0]
            if it in g.fv: return None
            prev = tm.subst(val, {it: tm.sub(it, IONE)})
            return tm.lam(lambda j: tm.ite(tm.and_(g, tm.lt(IZERO, it), tm.subst(c, {b: j})), tm.subst(prev, {b: j}), tm.sel(v0, j)))
        def build(j):
            ent = []
            for (g, idx, val), iv in zip(nws, inv):
                if iv[0] == "pt":
                    s, c = iv[1], iv[2]
                    d = tm.sub(j, c)
                    if abs(s) == 1: itj, ok = (d if s == 1 else tm.neg(d)), TRUE
                    else:
                        itj, ok = tm.idiv(d, tm.num(s, "I")), tm.eq(tm.imod(d, tm.num(abs(s), "I")), IZERO)
                        if s < 0: return None
                    m = {it: itj}
                else:
                    _, b, c, r = iv
                    itj = tm.subst(r, {b: j})
                    m = {it: itj, b: j}
                    ok = tm.subst(c, m)
                v = tm.and_(tm.le(IZERO, itj), tm.lt(itj, it), ok, tm.subst(g, m))
                ent.append((v, itj, tm.subst(val, m), iv))
            acc_v, acc_i, acc = None, None, tm.sel(v0, j)
            first = True
            prevs = []
            for v, i, val, iv in ent:
                excl = all(self.exclusive_residues(iv, p) for p in prevs)
                if first or excl: c = v
                else: c = tm.and_(v, tm.or_(tm.not_(acc_v), tm.le(acc_i, i)))
                acc = tm.ite(c, val, acc)
                acc_i = i if first else tm.ite(c, i, acc_i)
                acc_v = v if first else tm.or_(acc_v, v)
                prevs.append(iv)
                first = False
            return acc
        if any(iv[0] == "pt" and iv[1] < -1 for iv in inv): return None
        return tm.lam(build)
    def exclusive_residues(self, a, b):
        if a[0] == "pt" and b[0] == "pt" and a[1] == b[1] and abs(a[1]) > 1:
            d = tm.sub(a[2], b[2])
            return d.op == "num" and d.a[0] % abs(a[1]) != 0
        return False
    def rowinv(self, b, c, it, base, facts):
        """the iteration as a function of the index: b in row it"""
        parts = list(c.a) if c.op == "and" else [c]
        for p in parts:
            # not(b < lo(it))  i.e. lo(it) <= b
            q = p.a[0] if p.op == "not" else p
            if q.op != "lt" or q.a[0].s != "I": continue
            e = self.affine(tm.sub(q.a[0], q.a[1]), it)
            if e is None or e[0] == 0: continue
            s = abs(e[0])
            f = tm.sub(q.a[1], q.a[0]) if e[0] > 0 else tm.sub(q.a[0], q.a[1])
            a = self.affine(f, it)        # -s*it + c0
            c0 = a[1]
            fb = self.affine(c0, b)
            if fb is None or abs(fb[0]) != 1: continue
            if fb[0] == -1: continue
            cand = tm.idiv(c0, tm.num(s, "I"))
            for k in (0, 1, -1):
                cd = tm.add(cand, tm.num(k, "I"))
                if solve.entails([f_ for f_ in base.ctx() + list(facts) if self.intonly(f_)] + [c], tm.eq(it, cd), 2000): return cd
        return None

    # -------------------------------------------------------------- OpenMP
    def ex_OMPParallelDirective(self, n, st): return self.omp(n, st, False)
    def ex_OMPParallelForDirective(self, n, st): return self.omp(n, st, True)
    def omp(self, n, st, pfor):
        if self.region is not None: raise Unsupported("nested parallel region")
        fr = self.frames[-1]
        saved = dict(fr.vars)
        body = [c for c in n.c if c.k != "Clause"][0]
        shared = {o for o in st.mem if o[0] == "l" and o in set(fr.vars.values())}
        priv = set()
        red = set()
        lastp = {}
        for cl in n.c:
            if cl.k != "Clause": continue
            kind = (cl.v or "").lower()
            if "private" in kind or "reduction" in kind or "lastprivate" in kind:
                for nm, vid in cl.x:
                    o = fr.vars.get(vid)
                    if o is None: continue
                    o2 = ("l", self.newid(), nm + "'")
                    self.types[o2] = self.types.get(o, "double")
                    if "first" in kind: st.mem[o2] = st.mem[o]
                    elif "reduction" in kind: raise Unsupported("reduction")
                    else: st.mem[o2] = self.undefv(st, st.mem[o], self.types[o2])
                    fr.vars[vid] = o2
                    priv.add(o2)
        before = set(st.mem)
        rid = self.newid()
        self.region = dict(rid=rid, priv=priv, before=before, shared=None)
        self.tlsmap = rid
        oldw, oldr = self.writes, self.reads
        self.writes, self.reads = [], []
        nb = st.copy()
        try:
            if pfor:
                outs = self.ompfor(n, body, st)
            else: outs = self.ex(body, st)
        finally:
            w = self.writes
            self.writes, self.reads = oldw, oldr
            self.region, self.tlsmap = None, None
            fr.vars = saved
        st = outs[0][1]
        if any(k != "next" for k, _, _ in outs): raise Unsupported("branch out of a parallel region")
        # every thread executes these: writes to shared data outside worksharing, critical or atomic race
        for p, g, f, wh, excl in w:
            o = p.obj
            if o[0] == "tls" or o in priv or (o[0] in ("l", "h") and o not in before): continue
            if excl: continue
            self.obls.append(Obl("race", list(f) + list(g), FALSE, wh))
        for o, al in st.alive.items():
            if o[0] == "h" and o not in before and al is not FALSE:
                self.obls.append(Obl("leak", st.ctx(), tm.not_(al), self.where(n)))
        return [("next", st, None)]
    def undefv(self, st, v, ty):
        if isinstance(v, T): return self.fresh(st, "private", v.s)
        if isinstance(v, Ar): return Ar(self.fresh(st, "private", v.t.s), v.n)
        return self.undef(st, ty)
    def ex_OMPForDirective(self, n, st):
        if self.region is None: return self.ex([c for c in n.c if c.k != "Clause"][0], st)
        body = [c for c in n.c if c.k != "Clause"][0]
        return self.ompfor(n, body, st)
    def ompfor(self, n, body, st):
        while body.k == "Block" and len(body.c) == 1: body = body.c[0]
        if body.k != "For": raise Unsupported("omp for without a for")
        init, cond, inc, b = body.c[0], body.c[-3], body.c[-2], body.c[-1]
        fr = self.frames[-1]
        saved = dict(fr.vars)
        for cl in n.c:
            if cl.k == "Clause" and cl.v and "rivate" in cl.v and n.k == "OMPForDirective":
                for nm, vid in cl.x:
                    o = fr.vars.get(vid)
                    if o is None: continue
                    o2 = ("l", self.newid(), nm + "'")
                    st.mem[o2] = st.mem[o] if "irst" in cl.v else self.undefv(st, st.mem[o], self.types.get(o, "double"))
                    fr.vars[vid] = o2
                    self.region["priv"].add(o2)
        # the loop variable of a worksharing loop is private
        if init.k == "Bin" and init.c[0].k == "Ref":
            vid = init.c[0].x[1]
            o = fr.vars.get(vid)
            if o is not None and o not in self.region["priv"]:
                o2 = ("l", self.newid(), "i'")
                st.mem[o2] = st.mem[o]
                fr.vars[vid] = o2
                self.region["priv"].add(o2)
        r = self.ex(init, st)
        st = r[0][1]
        priv, before = self.region["priv"], self.region["before"]
        class Sh(object):
            def __contains__(s_, o): return not (o[0] == "tls" or o in priv or (o[0] in ("l", "h") and o not in before))
        outs = self.loop(body, None, cond, inc, b, st, omp=dict(shared=Sh()))
        fr.vars = saved
        return outs
    def races(self, omp, it, s00):
        sh = omp["shared"]
        W = [w for w in self.writes if w[0].obj in sh and not w[4]]
        nf0 = len(s00.facts)
        allv = {}
        def ren(t, m): return tm.subst(t, m)
        seen = set()
        def others(e):
            # bound names of inner loops
            out = set()
            for f in list(e[2]) + list(e[1]) + ([e[0].off] if e[0].off is not None else []): out |= {v for v in f.fv if v.a[0].startswith("it") and v.s == "I"}
            return out
        outer = set(s00.loopvars) - {it}
        hvars = set()
        for i, w in enumerate(W):
            for r in W[i:] + [x + (False,) for x in self.reads]:
                if r[0].obj != w[0].obj: continue
                pa, pb = w[0].path, r[0].path
                k = min(len(pa), len(pb))
                if pa[:k] != pb[:k]: continue
                key = (w[0], r[0], w[1], r[1])
                if key in seen: continue
                seen.add(key)
                m = {v: tm.fresh("jt", "I") for v in others(r) if v not in outer}
                m.setdefault(it, tm.fresh("jt", "I"))
                facts = list(w[2]) + list(w[1]) + [ren(f, m) for f in list(r[2]) + list(r[1])]
                if w[0].off is None or r[0].off is None: same = TRUE
                else: same = tm.eq(w[0].off, ren(r[0].off, m))
                goal = tm.implies(same, tm.eq(it, m[it]))
                self.obls.append(Obl("race", facts, goal, "%s / %s" % (w[3], r[3])))
    def ex_OMPCriticalDirective(self, n, st):
        body = [c for c in n.c if c.k != "Clause"][0]
        old, self.exclusive = self.exclusive, True
        try: return self.ex(body, st)
        finally: self.exclusive = old
    ex_OMPAtomicDirective = ex_OMPCriticalDirective
    def ex_OMPBarrierDirective(self, n, st): return [("next", st, None)]
    def ex_OMPMasterDirective(self, n, st): raise Unsupported("omp master")
    def ex_OMPSingleDirective(self, n, st): raise Unsupported("omp single")

def run_paths(make, limit=24):
    """all forks: make(script) -> (Exec, result)"""
    res, todo = [], [[]]
    while todo:
        sc = todo.pop()
        ex, out = make(list(sc))
        res.append((ex, out))
        if len(res) > limit: raise Unsupported("too many paths")
        for i in range(len(sc), ex.pos):
            todo.append(ex.script[:i] + [False])
    return res
