"""Runs the Python package's own source (pyregpt/pyregpt.py, read from /repo on every run) on symbolic arrays.

The module is executed by CPython with numpy, scipy and ctypes replaced by contracts: an array is a block of the same
memory the C verification-condition generator works on, of symbolic length, so a call through ctypes continues in the
library's real source; an element-wise operation is the operation on every element.  In real mode the same module is
executed with the real numpy, scipy and ctypes on the compiled library."""
import os, sys, ast, types, math, builtins
from fractions import Fraction
import terms as tm
from terms import T, TRUE, FALSE, IZERO, IONE
import symexec as sx
from symexec import Ptr, Ar, Unsupported
import cfront

SRC = os.path.join(os.path.dirname(cfront.SRC), "pyregpt", "pyregpt.py")

def I(x): return x if isinstance(x, T) else tm.num(int(x), "I")

# ------------------------------------------------------------------ scalars
def tof(x):
    """the term of a Python/numpy scalar"""
    if isinstance(x, S): return x.t
    if isinstance(x, T): return x
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, int): return tm.num(x, "I")
    if isinstance(x, float):
        if x == math.pi: return tm.PI
        if x != x or x in (float("inf"), float("-inf")): raise Unsupported("non-finite constant")
        if x == math.e: return tm.exp(tm.ONE)
        if x == 2 * math.e: return tm.exp(tm.ONE) * 2
        return tm.num(Fraction(repr(x)))
    if isinstance(x, Arr):
        if x.ndim == 0 and x.mask is None: return x.elem()
        raise Unsupported("array where a scalar is needed")
    raise Unsupported("value of type %s" % type(x).__name__)
def rl(t):
    if t.s == "I": return tm.i2r(t)
    if t.s == "B": return tm.ite(t, tm.ONE, tm.ZERO)
    return t
def power(a, b):
    if b.op == "num":
        e = Fraction(b.a[0])
        if e.denominator == 1:
            if a.s == "I" and e < 0: a = rl(a)
            return tm.pw(a, int(e))
        return tm.fn("powr", rl(a), b)
    return tm.fn("powr", rl(a), rl(b))
def bin_(op, a, b):
    if op in ("lt", "le", "gt", "ge"):
        if a.s != b.s: a, b = rl(a), rl(b)
        return {"lt": tm.lt, "le": tm.le, "gt": lambda x, y: tm.lt(y, x), "ge": lambda x, y: tm.le(y, x)}[op](a, b)
    if op in ("eq", "ne"):
        if a.s != b.s: a, b = rl(a), rl(b)
        r = tm.eq(a, b)
        return r if op == "eq" else tm.not_(r)
    if op in ("and", "or") and a.s == "B" and b.s == "B": return (tm.and_ if op == "and" else tm.or_)(a, b)
    if a.s == "B": a = tm.ite(a, IONE, IZERO)
    if b.s == "B": b = tm.ite(b, IONE, IZERO)
    if op == "pow": return power(a, b)
    if op == "div": return tm.div(rl(a), rl(b))
    if op in ("floordiv", "mod"):
        if a.s == "I" and b.s == "I": return (tm.idiv if op == "floordiv" else tm.imod)(a, b)
        raise Unsupported("floor division of reals")
    if a.s != b.s: a, b = rl(a), rl(b)
    return {"add": tm.add, "sub": tm.sub, "mul": tm.mul}[op](a, b)

class Sym(object):
    """operators shared by scalars and arrays"""
    __array_priority__ = 1e6
    def _op(self, op, o, rev=False, inplace=False): raise NotImplementedError
    def __add__(s, o): return s._op("add", o)
    def __radd__(s, o): return s._op("add", o, True)
    def __sub__(s, o): return s._op("sub", o)
    def __rsub__(s, o): return s._op("sub", o, True)
    def __mul__(s, o): return s._op("mul", o)
    def __rmul__(s, o): return s._op("mul", o, True)
    def __truediv__(s, o): return s._op("div", o)
    def __rtruediv__(s, o): return s._op("div", o, True)
    def __floordiv__(s, o): return s._op("floordiv", o)
    def __rfloordiv__(s, o): return s._op("floordiv", o, True)
    def __mod__(s, o): return s._op("mod", o)
    def __pow__(s, o): return s._op("pow", o)
    def __rpow__(s, o): return s._op("pow", o, True)
    def __lt__(s, o): return s._op("lt", o)
    def __le__(s, o): return s._op("le", o)
    def __gt__(s, o): return s._op("gt", o)
    def __ge__(s, o): return s._op("ge", o)
    def __eq__(s, o): return s._op("eq", o)
    def __ne__(s, o): return s._op("ne", o)
    def __and__(s, o): return s._op("and", o)
    def __rand__(s, o): return s._op("and", o, True)
    def __or__(s, o): return s._op("or", o)
    def __ror__(s, o): return s._op("or", o, True)
    def __neg__(s): return s._op("mul", -1)
    def __pos__(s): return s
    def __abs__(s): return s._un(absT)
    def __invert__(s): return s._un(tm.not_)
    __hash__ = object.__hash__

def absT(t): return tm.absr(rl(t)) if t.s != "I" else tm.ite(tm.lt(t, IZERO), tm.neg(t), t)

class S(Sym):
    """a symbolic number or truth value"""
    def __init__(self, W, t): self.W, self.t = W, t
    def _op(self, op, o, rev=False):
        if isinstance(o, Arr): return NotImplemented
        if o is None or isinstance(o, (str, bytes)): return {"eq": False, "ne": True}.get(op, NotImplemented)
        b = tof(o)
        return self.W.wrap(bin_(op, b, self.t) if rev else bin_(op, self.t, b))
    def _un(self, f): return self.W.wrap(f(self.t))
    def __bool__(self):
        t = self.t
        if t.s != "B": t = tm.not_(tm.eq(t, tm.num(0, t.s)))
        return self.W.branch(t)
    def __index__(self):
        t = self.W.D.E.simp(self.W.D.st, self.t)
        if t.s == "I" and t.op == "num": return int(t.a[0])
        raise Unsupported("symbolic number used as a Python integer")
    __int__ = __index__
    def __float__(self): raise Unsupported("symbolic number used as a Python float")
    def __repr__(self): return "<%s>" % tm.show(self.t)
    @property
    def ndim(self): return 0
    @property
    def shape(self): return ()
    @property
    def size(self): return 1
    def copy(self): return self
    def item(self): return self
    def flatten(self): return self.W.np.asarray(self).flatten()
    ravel = flatten

# ------------------------------------------------------------------ arrays
class Buf(object):
    """a block of memory, alive as long as an array refers to it (numpy's own rule)"""
    def __init__(self, W, obj): self.W, self.obj = W, obj
    def __del__(self):
        try: self.W.D.st.alive[self.obj] = FALSE
        except Exception: pass

class Arr(Sym):
    def __init__(self, W, buf, off, shape, strides, dtype, fun=None, mask=None):
        self.W, self.buf, self.off, self._shape, self.strides_, self.dtype, self.fun, self.mask = W, buf, off, tuple(shape), tuple(strides), dtype, fun, mask
    # structure
    @property
    def ndim(self): return len(self._shape)
    @property
    def shape(self): return tuple(self.W.wrap(x) for x in self._shape)
    @shape.setter
    def shape(self, new): 
        v = self.reshape(new, inplace=True)
        self._shape, self.strides_ = v._shape, v.strides_
    def __len__(self): raise Unsupported("len() of a symbolic array")
    def len_(self):
        if self.mask is not None: raise Unsupported("length of a masked selection")
        if not self._shape: raise TypeError("len() of unsized object")
        return self.W.wrap(self._shape[0])
    def size_(self):
        n = IONE
        for x in self._shape: n = tm.mul(n, x)
        return n
    @property
    def size(self):
        if self.mask is not None: raise Unsupported("size of a masked selection")
        return self.W.wrap(self.size_())
    @property
    def flags(self): return {"C_CONTIGUOUS": self.contiguous()}
    @property
    def nbytes(self): return self.size * 8
    @property
    def base(self): raise Unsupported(".base")
    @property
    def T(self): return Arr(self.W, self.buf, self.off, self._shape[::-1], self.strides_[::-1], self.dtype)
    def transpose(self, *a):
        if a: raise Unsupported("transpose axes")
        return self.T
    def contiguous(self):
        st, ok = IONE, True
        for n, s in list(zip(self._shape, self.strides_))[::-1]:
            if n is not IONE and s is not st: ok = False
            st = tm.mul(st, n)
        return ok
    def content(self): return self.W.D.E.root(self.W.D.st, self.buf.obj)
    def elem(self, *idx):
        if self.fun is not None: return self.fun(*idx)
        o = self.off
        for i, s in zip(idx, self.strides_): o = tm.add(o, tm.mul(I(i), s))
        return self.W.D.E.simp(self.W.D.st, tm.sel(self.content().t, o))
    def get(self): return lambda *i: self.elem(*i)
    def snapshot(self):
        """the current contents as a function (later writes do not change it)"""
        if self.fun is not None: return self.fun
        c, off, sts, W = self.content().t, self.off, self.strides_, self.W
        def f(*idx):
            o = off
            for i, s in zip(idx, sts): o = tm.add(o, tm.mul(I(i), s))
            return W.D.E.simp(W.D.st, tm.sel(c, o))
        return f
    # elementwise
    def _op(self, op, o, rev=False):
        if o is None or isinstance(o, (str, bytes)): return {"eq": False, "ne": True}.get(op, NotImplemented)
        return self.W.ew(lambda a, b: bin_(op, b, a) if rev else bin_(op, a, b), self, o)
    def _un(self, f): return self.W.ew(f, self)
    def _iop(self, op, o):
        r = self._op(op, o)
        if self.mask is not None: return r
        if tuple(r._shape) != self._shape and not self.W.same_shape(r._shape, self._shape): raise Unsupported("in-place broadcast")
        if self.dtype.startswith("i") and r.dtype.startswith("f"): raise TypeError("cannot cast ufunc output from float to int")
        self.assign(r)
        return self
    def __iadd__(s, o): return s._iop("add", o)
    def __isub__(s, o): return s._iop("sub", o)
    def __imul__(s, o): return s._iop("mul", o)
    def __itruediv__(s, o): return s._iop("div", o)
    def __ipow__(s, o): return s._iop("pow", o)
    def assign(self, v, sel=None):
        """write v (array of the same shape, or scalar) into this view; sel(idx) -> condition restricts the elements written"""
        W = self.W
        if self.buf is None: raise Unsupported("assignment to a selection")
        if isinstance(v, Arr):
            f = v.snapshot()
            if v.ndim < self.ndim:
                k = self.ndim - v.ndim
                g = f
                f = lambda *i: g(*i[k:])
            if v._shape != self._shape[self.ndim - v.ndim:] and not W.same_shape(v._shape, self._shape[self.ndim - v.ndim:]):
                W.must_eq(v._shape, self._shape[self.ndim - v.ndim:], "could not broadcast input array")
        else:
            v0 = tof(v)
            f = lambda *i: v0
        c = self.content()
        conv = (lambda t: rl(t)) if c.t.s == "AR" else (lambda t: t)
        off, shp, sts = self.off, self._shape, self.strides_
        if not shp:
            W.D.st.mem[self.buf.obj] = Ar(tm.store(c.t, off, conv(f())), c.n)
            return
        if all(n.op == "num" and n.a[0] <= 16 for n in shp) :
            import itertools
            t = c.t
            for idx in itertools.product(*[range(n.a[0]) for n in shp]):
                o = off
                for i, s in zip(idx, sts): o = tm.add(o, tm.mul(I(i), s))
                val = conv(f(*[I(i) for i in idx]))
                if sel is not None: val = tm.ite(sel(*[I(i) for i in idx]), val, tm.sel(t, o))
                t = tm.store(t, o, val)
            W.D.st.mem[self.buf.obj] = Ar(t, c.n)
            return
        t0 = c.t
        def body(j):
            # position of the flat index j in this view
            r = tm.sub(j, off)
            idx, conds = W.unflatten(r, shp, sts)
            val = conv(f(*idx))
            cs = list(conds)
            if sel is not None: cs.append(sel(*idx))
            return tm.ite(tm.and_(*cs), val, tm.sel(t0, j))
        full = tm.eq(off, IZERO) is TRUE and self.contiguous() and self.size_() is c.n
        if full and sel is None: W.D.st.mem[self.buf.obj] = Ar(tm.lam(lambda j: conv(f(*W.unflatten(j, shp, sts)[0]))), c.n)
        else: W.D.st.mem[self.buf.obj] = Ar(tm.lam(body), c.n)
    # indexing
    def view(self, key):
        W = self.W
        if not isinstance(key, tuple): key = (key,)
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            n = len([k for k in key if k is not None]) - 1
            key = key[:i] + (slice(None),) * (self.ndim - n) + key[i + 1:]
        off, shp, sts, d = self.off, [], [], 0
        for k in key:
            if k is None:
                shp.append(IONE); sts.append(IZERO); continue
            n, s = self._shape[d], self.strides_[d]
            d += 1
            if isinstance(k, slice):
                a, b, step = W.slice_(k, n)
                off = tm.add(off, tm.mul(a, s))
                if step == 1: cnt = W.clamp0(tm.sub(b, a))
                elif step == -1: cnt = W.clamp0(tm.sub(a, b))
                else:
                    cnt = tm.idiv(tm.add(W.clamp0(tm.sub(b, a) if step > 0 else tm.sub(a, b)), I(abs(step) - 1)), I(abs(step)))
                shp.append(cnt); sts.append(tm.mul(s, I(step)))
            elif isinstance(k, (int, S)) and not isinstance(k, bool):
                i = W.index(tof(k), n)
                off = tm.add(off, tm.mul(i, s))
            else: raise Unsupported("index of type %s" % type(k).__name__)
        shp += self._shape[d:]; sts += self.strides_[d:]
        return Arr(W, self.buf, off, shp, sts, self.dtype)
    def ismask(self, k): return isinstance(k, Arr) and k.dtype == "b1"
    def __getitem__(self, key):
        W = self.W
        if self.mask is not None: raise Unsupported("index of a selection")
        if self.ismask(key):
            if key.ndim > self.ndim: raise Unsupported("mask of more dimensions")
            W.must_eq(key._shape, self._shape[:key.ndim], "boolean index did not match")
            return Arr(W, None, IZERO, self._shape, self.strides_, self.dtype, fun=self.snapshot(), mask=key.snapshot_key())
        if isinstance(key, Arr) and key.dtype.startswith("i") or isinstance(key, list): raise Unsupported("index array")
        v = self.view(key)
        if v.ndim == 0: return W.wrap(v.elem())
        return v
    def snapshot_key(self):
        f = self.snapshot()
        return (tm.lam(lambda i: f(i)) if self.ndim == 1 else tm.lam(lambda i: f(*self.W.unflatten(i, self._shape, self.W.cstrides(self._shape))[0])), f)
    def __setitem__(self, key, val):
        W = self.W
        if self.mask is not None: raise Unsupported("assignment to a selection")
        if self.ismask(key):
            W.must_eq(key._shape, self._shape[:key.ndim], "boolean index did not match")
            mk = key.snapshot_key()
            if key.ndim < self.ndim: mk = (mk[0], lambda *i, f=mk[1], n=key.ndim: f(*i[:n]))
            if isinstance(val, Arr):
                if val.mask is None: raise Unsupported("array assigned to a selection")
                if val.mask[0] is not mk[0]: raise Unsupported("different selections")
                g = val.fun
                self.assign(Arr(W, None, IZERO, self._shape, self.strides_, val.dtype, fun=g), sel=mk[1])
            else: self.assign(val, sel=mk[1])
            return
        self.view(key).assign(val)
    # methods
    def copy(self, order="C"): return self.W.new(self.snapshot(), self._shape, self.dtype)
    def flatten(self, order="C"): return self.ravel_(True)
    def ravel(self, order="C"): return self.ravel_(False)
    def ravel_(self, copy):
        W = self.W
        if self.contiguous():
            v = Arr(W, self.buf, self.off, (self.size_(),), (IONE,), self.dtype)
            return v.copy() if copy else v
        f = self.snapshot()
        shp = self._shape
        if self.ndim == 1: return self.copy()
        cs = W.cstrides(shp)
        return W.new(lambda j: f(*W.unflatten(j, shp, cs)[0]), (self.size_(),), self.dtype)
    def reshape(self, *new, **kw):
        inplace = kw.get("inplace")
        if len(new) == 1: new = new[0]
        if not isinstance(new, (tuple, list)): new = (new,)
        new = [tof(x) for x in new]
        tot = self.size_()
        neg = [i for i, x in enumerate(new) if x.op == "num" and x.a[0] == -1]
        if neg:
            o = IONE
            for i, x in enumerate(new):
                if i not in neg: o = tm.mul(o, x)
            new[neg[0]] = tot if o is IONE else tm.idiv(tot, o)
        n = IONE
        for x in new: n = tm.mul(n, x)
        self.W.must_eq((n,), (tot,), "cannot reshape array")
        if not self.contiguous():
            if inplace: raise AttributeError("incompatible shape for in-place modification")
            return self.ravel_(True).reshape(*new)
        return Arr(self.W, self.buf, self.off, new, self.W.cstrides(new), self.dtype)
    def astype(self, dt, copy=True): return self.W.new(self.snapshot(), self._shape, self.W.dt(dt))
    def tolist(self): raise Unsupported("tolist")
    def fill(self, v): self.assign(v)
    def sum(self, axis=None, **kw): return self.W.np.sum(self, axis=axis)
    def any(self): return self.W.np.any(self)
    def all(self): return self.W.np.all(self)
    def item(self):
        if self.ndim == 0: return self.W.wrap(self.elem())
        raise Unsupported("item")
    def __bool__(self):
        if self.ndim == 0: return self.W.branch(self.elem())
        raise ValueError("The truth value of an array with more than one element is ambiguous")
    def __iter__(self):
        n = self._shape[0]
        if n.op != "num": raise Unsupported("iteration over a symbolic array")
        return iter([self[i] for i in range(n.a[0])])
    def __contains__(self, x): raise Unsupported("in array")
    def __repr__(self): return "Arr%s" % (tuple(tm.show(x) for x in self._shape),)

ORDER = {"b1": 0, "i8": 1, "f4": 2, "f8": 3}
SORT = {"b1": "B", "i8": "I", "f4": "R", "f8": "R"}

class World(object):
    def __init__(self, D):
        self.D = D
        self.real = D.real_mode
        self.nbuf = 0
        self.calls = []
        if self.real: self.mod = real_module(self)
        else:
            self.np = FakeNp(self)
            self.mod = sym_module(self)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return getattr(self.mod, n)
    # --- symbolic helpers
    def wrap(self, t):
        if not isinstance(t, T): return t
        if t.s == "I" and t.op == "num": return int(t.a[0])
        if t is TRUE: return True
        if t is FALSE: return False
        return S(self, t)
    def branch(self, t):
        D = self.D
        r = D.E.decide(D.st, t)
        if r is None and t.s == "B":
            import solve
            try:
                if solve.entails(D.st.ctx(), t, 1500): r = TRUE
                elif solve.entails(D.st.ctx(), tm.not_(t), 1500): r = FALSE
            except Exception: pass
        if r is TRUE: return True
        if r is FALSE: return False
        v = D.E.choose(D.st, t)
        D.st.facts = D.st.facts + ((t if v else tm.not_(t)),)
        return v
    def known(self, t):
        import solve
        r = self.D.E.decide(self.D.st, t)
        if r is not None: return r is TRUE
        try: return bool(solve.entails(self.D.st.ctx(), t, 1500))
        except Exception: return False
    def must_eq(self, a, b, msg):
        if len(a) != len(b): raise ValueError(msg)
        for x, y in zip(a, b):
            if x is y: continue
            if not self.branch(tm.eq(x, y)): raise ValueError(msg)
    def same_shape(self, a, b): return len(a) == len(b) and all(x is y or self.known(tm.eq(x, y)) for x, y in zip(a, b))
    def clamp0(self, t):
        if self.known(tm.le(IZERO, t)): return t
        return tm.ite(tm.lt(t, IZERO), IZERO, t)
    def slice_(self, k, n):
        step = 1 if k.step is None else k.step
        if isinstance(step, S): step = int(step)
        if step == 0: raise ValueError("slice step cannot be zero")
        if step < 0:
            if k.start is None and k.stop is None: return tm.sub(n, IONE), I(-1), step
            raise Unsupported("negative step")
        a = IZERO if k.start is None else self.bound(tof(k.start), n)
        b = n if k.stop is None else self.bound(tof(k.stop), n)
        return a, b, step
    def bound(self, t, n):
        if t.s != "I": raise TypeError("slice indices must be integers")
        if self.branch(tm.lt(t, IZERO)):
            t = tm.add(t, n)
            return t if self.branch(tm.le(IZERO, t)) else IZERO
        return t if self.branch(tm.le(t, n)) else n
    def index(self, t, n):
        if t.s != "I": raise IndexError("only integers are valid indices")
        if self.branch(tm.lt(t, IZERO)): t = tm.add(t, n)
        if not self.branch(tm.and_(tm.le(IZERO, t), tm.lt(t, n))): raise IndexError("index out of bounds")
        return t
    def cstrides(self, shp):
        s, out = IONE, []
        for n in list(shp)[::-1]:
            out.append(s); s = tm.mul(s, n)
        return tuple(out[::-1])
    def layout(self, shp):
        """strides with the symbolic dimension outermost"""
        symd = [i for i, n in enumerate(shp) if n.op != "num"]
        if len(symd) > 1: return self.cstrides(shp)
        order = symd + [i for i in range(len(shp)) if i not in symd]
        s, st = IONE, [None] * len(shp)
        for i in order[::-1]:
            st[i] = s; s = tm.mul(s, shp[i])
        return tuple(st)
    def unflatten(self, r, shp, sts):
        """indices of the element at offset r of a view, and the conditions under which it is in the view"""
        if len(shp) == 0: return (), [tm.eq(r, IZERO)]
        if len(shp) == 1:
            s = sts[0]
            if s is IONE: return (r,), [tm.le(IZERO, r), tm.lt(r, shp[0])]
            if s.op != "num" or s.a[0] <= 0: raise Unsupported("stride")
            i = tm.idiv(r, s)
            return (i,), [tm.eq(tm.imod(r, s), IZERO), tm.le(IZERO, r), tm.lt(i, shp[0])]
        order = sorted(range(len(shp)), key=lambda i: -(sts[i].a[0] if sts[i].op == "num" else 10 ** 9))
        idx, conds = [None] * len(shp), [tm.le(IZERO, r)]
        for n, d in enumerate(order):
            s = sts[d]
            if s is IONE: i, r = r, IZERO
            else:
                if s.op != "num" or s.a[0] <= 0: raise Unsupported("stride")
                i = tm.idiv(r, s)
                r = tm.imod(r, s)
            idx[d] = i
            conds.append(tm.lt(i, shp[d]))
        if r is not IZERO: conds.append(tm.eq(r, IZERO))
        return tuple(idx), conds
    def alloc(self, t, n, dtype):
        self.nbuf += 1
        o = ("s", "np%d" % self.nbuf, {"R": "double", "I": "long", "B": "_Bool"}[SORT[dtype]])
        self.D.st.mem[o] = Ar(t, n)
        self.D.E.types[o] = o[2]
        return Buf(self, o)
    def new(self, f, shape, dtype, corder=False):
        shape = tuple(shape)
        sts = self.cstrides(shape) if corder else self.layout(shape)
        n = IONE
        for x in shape: n = tm.mul(n, x)
        conv = rl if SORT[dtype] == "R" else (lambda t: t)
        if not shape: t = tm.lam(lambda j: conv(f()))
        elif all(x.op == "num" for x in shape) and n.a[0] <= 64:
            import itertools
            t = tm.aconst(tm.num(0, SORT[dtype]) if SORT[dtype] != "B" else FALSE)
            for idx in itertools.product(*[range(x.a[0]) for x in shape]):
                o = IZERO
                for i, s in zip(idx, sts): o = tm.add(o, tm.mul(I(i), s))
                t = tm.store(t, o, conv(f(*[I(i) for i in idx])))
        else: t = tm.lam(lambda j: conv(f(*self.unflatten(j, shape, sts)[0])))
        return Arr(self, self.alloc(t, n, dtype), IZERO, shape, sts, dtype)
    def dt(self, d):
        if d is None or d is float or d == "f8" or d == "float64" or d is self.ctypes_double or d == "d" or d is getattr(self.np, "float64", 0): return "f8"
        if d in ("f4", "float32") or d is self.np.float32: return "f4"
        if d is int or d in ("i8", "i4"): return "i8"
        if d is bool: return "b1"
        raise Unsupported("dtype %r" % (d,))
    ctypes_double = None
    def ew(self, f, *ops):
        """element-wise f with broadcasting"""
        arrs = [o for o in ops if isinstance(o, Arr)]
        mask = None
        for a in arrs:
            if a.mask is not None:
                if mask is not None and mask[0] is not a.mask[0]: raise Unsupported("different selections")
                mask = a.mask
        if mask is not None and any(a.mask is None and a.ndim > 0 for a in arrs): raise Unsupported("selection combined with a whole array")
        nd = max(a.ndim for a in arrs)
        shape = [None] * nd
        for a in arrs:
            for d in range(a.ndim):
                n = a._shape[a.ndim - 1 - d]
                e = nd - 1 - d
                if shape[e] is None or shape[e] is IONE: shape[e] = n
                elif n is IONE or n is shape[e]: pass
                elif not self.branch(tm.eq(n, shape[e])): raise ValueError("operands could not be broadcast together")
        gs = []
        for o in ops:
            if isinstance(o, Arr):
                g = o.snapshot()
                k = nd - o.ndim
                one = [x is IONE for x in o._shape]
                sh = [s for s in shape[k:]]
                def h(*idx, g=g, k=k, one=one, sh=sh): return g(*[IZERO if (u and sn is not IONE) else i for i, u, sn in zip(idx[k:], one, sh)])
                gs.append(h)
            else:
                t = tof(o)
                gs.append(lambda *idx, t=t: t)
        def F(*idx): return f(*[g(*idx) for g in gs])
        j = [tm.fresh("d", "I") for _ in shape]
        smp = F(*j)
        if mask is not None:
            return Arr(self, None, IZERO, shape, self.cstrides(shape), {"B": "b1", "I": "i8", "R": "f8"}[smp.s], fun=F, mask=mask)
        dts = [o.dtype for o in arrs]
        dtype = {"B": "b1", "I": "i8", "R": "f8"}[smp.s]
        if dtype == "f8" and all(d == "f4" for d in dts): dtype = "f4"
        return self.new(F, shape, dtype)
    # --- driver interface (both modes)
    def array(self, name, n, gen=None, dtype="f8", step=1):
        """an input array of n numbers (every step-th element of a longer block)"""
        D = self.D
        if self.real:
            import numpy as np
            N = int(D.v(tm.lift(n, "I")))
            if name not in D.env: D.env[name] = [float(x) for x in gen(D, N)] if gen else [D.rng.uniform(-1, 1) for _ in range(N)]
            big = np.full(N * step, 7.77e7, dtype=dtype)
            big[::step] = D.env[name]
            D.env[name] = [float(x) for x in big[::step]]
            return big[::step]
        n = tm.lift(n, "I")
        t = tm.avar(name)
        if step == 1: c, tot = t, n
        else:
            junk = tm.avar(name + "!gap")
            c, tot = tm.lam(lambda j: tm.ite(tm.eq(tm.imod(j, I(step)), IZERO), tm.sel(t, tm.idiv(j, I(step))), tm.sel(junk, j))), tm.mul(n, I(step))
        o = ("s", name, "double")
        D.E.inputs[o] = Ar(c, tot)
        D.E.types[o] = "double"
        D.st.mem[o] = D.E.inputs[o]
        return Arr(self, Buf(self, o), IZERO, (n,), (I(step),), dtype)
    def scalar(self, t):
        """a declared number as the Python code sees it"""
        if self.real: v = self.D.v(t); return v
        return self.wrap(t)
    def val(self, x, *idx):
        """term of a scalar or of an element of an array, for use in ensure()"""
        D = self.D
        if self.real:
            import numpy as np
            i = tuple(int(D.v(tm.lift(j, "I"))) for j in idx)
            v = x[i] if idx else x
            nm = "pv!%d" % len(D.env)
            D.env[nm] = int(v) if isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_)) else float(v)
            return tm.var(nm, "I" if isinstance(D.env[nm], int) else "R")
        if isinstance(x, Arr):
            if len(idx) != x.ndim: raise Unsupported("result has %d dimensions" % x.ndim)
            return rl(x.elem(*[tm.lift(i, "I") for i in idx]))
        return tof(x)
    def shape(self, x):
        if self.real:
            import numpy as np
            return tuple(tm.num(n, "I") for n in np.shape(x))
        if isinstance(x, Arr): return x._shape
        return ()
    def ensure_shape(self, label, x, shape):
        s = self.shape(x)
        D = self.D
        D.ensure(label + ": number of dimensions", tm.num(len(s), "I"), tm.num(len(shape), "I"))
        for i, (a, b) in enumerate(zip(s, shape)): D.ensure(label + ": dimension %d" % i, a, tm.lift(b, "I"))
    def same_storage(self, x, y):
        if self.real:
            import numpy as np
            return bool(np.shares_memory(x, y))
        return isinstance(x, Arr) and isinstance(y, Arr) and x.buf is y.buf

# ------------------------------------------------------------------ numpy's contracts
class Fake(object):
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        raise Unsupported("%s.%s is not modelled" % (type(self).__name__, n))

class FakeNp(Fake):
    def __init__(self, W):
        self.W = W
        self.pi, self.e, self.newaxis = S(W, tm.PI), S(W, tm.exp(tm.ONE)), None
        self.float64, self.float32, self.int64, self.bool_ = "f8", "f4", "i8", bool
        self.ndarray = Arr
        self.nan, self.inf = float("nan"), float("inf")
        for nm, f in (("exp", tm.exp), ("log", tm.log), ("sqrt", tm.sqrt), ("sin", tm.sin), ("cos", tm.cos), ("abs", absT), ("absolute", absT), ("fabs", absT)):
            setattr(self, nm, self.un(f))
        for nm, op in (("add", "add"), ("subtract", "sub"), ("multiply", "mul"), ("divide", "div"), ("true_divide", "div"), ("power", "pow"), ("less", "lt"), ("greater", "gt"),
                       ("less_equal", "le"), ("greater_equal", "ge"), ("logical_and", "and"), ("logical_or", "or"), ("equal", "eq")):
            setattr(self, nm, self.bi(op))
        self.square = lambda x: x * x
        self.log10 = self.un(lambda t: tm.div(tm.log(t), tm.log(tm.num(10))))
        self.tan = self.un(lambda t: tm.div(tm.sin(t), tm.cos(t)))
        self.cbrt = self.un(lambda t: tm.fn("powr", t, tm.num(Fraction(1, 3))))
        self.expm1 = self.un(lambda t: tm.sub(tm.exp(t), tm.ONE))
        self.log1p = self.un(lambda t: tm.log(tm.add(tm.ONE, t)))
        self.isnan = self.un(lambda t: tm.bfn("isnan", t))
        self.isfinite = self.un(lambda t: tm.not_(tm.or_(tm.bfn("isnan", t), tm.bfn("isinf", t))))
    def un(self, f):
        def g(x, **kw):
            if kw: raise Unsupported("ufunc keywords")
            if isinstance(x, Arr): return self.W.ew(lambda t: f(rl(t)), x)
            return self.W.wrap(f(rl(tof(x))))
        return g
    def bi(self, op):
        def g(x, y, **kw):
            if kw: raise Unsupported("ufunc keywords")
            if isinstance(x, Arr): return x._op(op, y)
            if isinstance(y, Arr): return y._op(op, x, True)
            return self.W.wrap(bin_(op, tof(x), tof(y)))
        return g
    def minimum(self, x, y):
        f = lambda a, b: tm.ite(tm.lt(b, a), b, a)
        return self.W.ew(f, x, y) if isinstance(x, Arr) or isinstance(y, Arr) else self.W.wrap(f(tof(x), tof(y)))
    def maximum(self, x, y):
        f = lambda a, b: tm.ite(tm.lt(a, b), b, a)
        return self.W.ew(f, x, y) if isinstance(x, Arr) or isinstance(y, Arr) else self.W.wrap(f(tof(x), tof(y)))
    def shp(self, s):
        if not isinstance(s, (tuple, list)): s = (s,)
        return tuple(tof(x) for x in s)
    def asarray(self, x, dtype=None, order=None):
        W = self.W
        if isinstance(x, Arr):
            if dtype is None or W.dt(dtype) == x.dtype: return x
            return x.astype(dtype)
        if isinstance(x, (list, tuple)):
            if x and isinstance(x[0], Arr):
                n = len(x)
                fs = [y.snapshot() for y in x]
                for y in x[1:]: W.must_eq(y._shape, x[0]._shape, "inhomogeneous")
                def f(i, *r):
                    t = fs[-1](*r)
                    for q in range(n - 2, -1, -1): t = tm.ite(tm.eq(i, I(q)), fs[q](*r), t)
                    return t
                return W.new(f, (I(n),) + x[0]._shape, "f8")
            ts = [tof(y) for y in x]
            isint = all(t.s == "I" for t in ts) and ts
            def g(i):
                i = W.D.E.simp(W.D.st, i)
                if i.op == "num": return ts[i.a[0]]
                t = ts[-1]
                for q in range(len(ts) - 2, -1, -1): t = tm.ite(tm.eq(i, I(q)), ts[q], t)
                return t
            return W.new(g, (I(len(ts)),), W.dt(dtype) if dtype is not None else ("i8" if isint else "f8"))
        t = tof(x)
        return W.new(lambda: t, (), W.dt(dtype) if dtype is not None else {"R": "f8", "I": "i8", "B": "b1"}[t.s])
    def array(self, x, dtype=None, copy=True, order=None):
        r = self.asarray(x, dtype)
        return r.copy() if isinstance(x, Arr) and r is x else r
    def ascontiguousarray(self, x, dtype=None):
        r = self.asarray(x, dtype)
        if r.ndim == 0: return r.reshape(1)
        if r.contiguous(): return r
        return self.W.new(r.snapshot(), r._shape, r.dtype, corder=True)
    def require(self, *a, **kw): raise Unsupported("np.require")
    def copy(self, x): return self.asarray(x).copy()
    def full_(self, shape, v, dtype): 
        t = tof(v)
        return self.W.new(lambda *i: t, self.shp(shape), self.W.dt(dtype) if dtype is not None else "f8", corder=True)
    def zeros(self, shape, dtype=None): return self.full_(shape, 0., dtype)
    def ones(self, shape, dtype=None): return self.full_(shape, 1., dtype)
    def full(self, shape, v, dtype=None): return self.full_(shape, v, dtype)
    def empty(self, shape, dtype=None):
        self.W.nbuf += 1
        nm = "uninit!%d" % self.W.nbuf
        s = self.shp(shape)
        v = tm.avar(nm)
        cs = self.W.cstrides(s)
        return self.W.new(lambda *i: tm.sel(v, sum_idx(i, cs)), s, "f8", corder=True)
    def zeros_like(self, x, dtype=None): return self.like(x, tm.ZERO, dtype)
    def ones_like(self, x, dtype=None): return self.like(x, tm.ONE, dtype)
    def full_like(self, x, v, dtype=None): return self.like(x, tof(v), dtype)
    def empty_like(self, x, dtype=None): return self.empty(tuple(self.asarray(x)._shape), dtype)
    def like(self, x, t, dtype):
        a = self.asarray(x)
        d = self.W.dt(dtype) if dtype is not None else a.dtype
        if SORT[d] == "I": t = tm.num(int(t.a[0]), "I")
        return self.W.new(lambda *i: t, a._shape, d)
    def sum(self, x, axis=None, **kw):
        W = self.W
        if isinstance(x, (list, tuple)): x = self.asarray(x)
        if not isinstance(x, Arr): return x
        if kw or x.mask is not None: raise Unsupported("sum")
        f = x.snapshot()
        if x.dtype == "b1":
            if x.ndim != 1: raise Unsupported("count")
            key = tm.lam(lambda i: f(i))
            # the number of true elements, a function of the array's contents alone
            W.nbuf += 1
            c = W.counts.setdefault((key, x._shape[0]), tm.var("count!%d" % len(W.counts), "I"))
            s = W.steps.get((key, x._shape[0]))
            if s is not None: return W.wrap(s)
            fs = (tm.le(IZERO, c), tm.le(c, x._shape[0]))
            W.D.st.facts = W.D.st.facts + tuple(t for t in fs if t not in W.D.st.facts and t is not TRUE)
            return W.wrap(c)
        if x.ndim == 1 and axis in (None, 0, -1): return W.wrap(tm.asum(IZERO, x._shape[0], lambda i: rl(f(i)) if x.dtype != "i8" else rl(f(i))))
        if axis is not None and isinstance(axis, int):
            if axis < 0: axis += x.ndim
            sh = x._shape[:axis] + x._shape[axis + 1:]
            return W.new(lambda *i: tm.asum(IZERO, x._shape[axis], lambda j: rl(f(*(i[:axis] + (j,) + i[axis:])))), sh, "f8")
        raise Unsupported("sum")
    def count_nonzero(self, x): return self.sum(x)
    def truth(self, t): return t if t.s == "B" else tm.not_(tm.eq(t, tm.num(0, t.s)))
    def all_(self, x, want):
        if isinstance(x, (list, tuple)): x = self.asarray(x)
        one = lambda t: self.truth(t) if want else tm.not_(self.truth(t))
        if not isinstance(x, Arr): return one(tof(x))
        f = x.snapshot()
        if x.mask is not None: raise Unsupported("any/all of a selection")
        def rec(d, idx):
            if d == x.ndim: return one(f(*idx))
            n = x._shape[d]
            if n.op == "num" and n.a[0] <= 16:
                c = TRUE
                for i in range(n.a[0]): c = tm.and_(c, rec(d + 1, idx + (I(i),)))
                return c
            return tm.forall(IZERO, n, lambda i: rec(d + 1, idx + (i,)))
        return rec(0, ())
    def any(self, x, axis=None):
        if axis is not None: raise Unsupported("any")
        return self.W.wrap(tm.not_(self.all_(x, False)))
    def all(self, x, axis=None):
        if axis is not None: raise Unsupported("all")
        return self.W.wrap(self.all_(x, True))
    def where(self, c, *ab):
        if len(ab) != 2: raise Unsupported("where")
        f = lambda c, a, b: tm.ite(c, rl(a), rl(b))
        if any(isinstance(q, Arr) for q in (c,) + ab): return self.W.ew(f, c, *ab)
        return self.W.wrap(f(tof(c), tof(ab[0]), tof(ab[1])))
    def nan_to_num(self, x, copy=True, nan=0.0, posinf=None, neginf=None): raise Unsupported("nan_to_num also changes infinities")
    def isscalar(self, x): return not isinstance(x, Arr)
    def ndim(self, x): return x.ndim if isinstance(x, Arr) else 0
    def shape(self, x): return x.shape if isinstance(x, Arr) else ()
    def size(self, x): return x.size if isinstance(x, Arr) else 1
    def atleast_1d(self, x):
        a = self.asarray(x)
        return a if a.ndim else a.reshape(1)
    def ravel(self, x): return self.asarray(x).ravel()
    def transpose(self, x): return x.T
    def reshape(self, x, s): return x.reshape(s)
    def diff(self, x):
        if x.ndim != 1: raise Unsupported("diff")
        return x[1:] - x[:-1]
    def trapz(self, y, x=None, dx=1., axis=-1): return self.W.trapz(y, x, axis)
    trapezoid = trapz
    def dot(self, a, b):
        if a.ndim == 1 and b.ndim == 1: return self.sum(a * b)
        raise Unsupported("dot")
    def concatenate(self, xs, axis=0):
        W = self.W
        xs = [self.asarray(x) for x in xs]
        if axis != 0: raise Unsupported("concatenate axis")
        fs = [x.snapshot() for x in xs]
        for x in xs[1:]: W.must_eq(x._shape[1:], xs[0]._shape[1:], "dimensions must match")
        offs, n = [], IZERO
        for x in xs: offs.append(n); n = tm.add(n, x._shape[0])
        def f(i, *r):
            t = fs[-1](tm.sub(i, offs[-1]), *r)
            for q in range(len(xs) - 2, -1, -1): t = tm.ite(tm.lt(i, offs[q + 1]), fs[q](tm.sub(i, offs[q]), *r), t)
            return t
        return W.new(f, (n,) + xs[0]._shape[1:], "f8")
    append = None
    def hstack(self, xs): return self.concatenate(xs)
    def pad(self, a, pad_width, mode="constant", **kw):
        W = self.W
        a = self.asarray(a)
        # numpy: a pair for every axis, or one pair for all, or one number
        def norm(p):
            if not isinstance(p, (tuple, list)): return [(tof(p), tof(p))] * a.ndim
            p = list(p)
            if p and not isinstance(p[0], (tuple, list)):
                if len(p) == 1: return [(tof(p[0]), tof(p[0]))] * a.ndim
                if len(p) == 2: return [(tof(p[0]), tof(p[1]))] * a.ndim
                raise ValueError("operands could not be broadcast together (pad_width)")
            if len(p) == 1: p = p * a.ndim
            if len(p) != a.ndim: raise ValueError("pad_width must broadcast to ndim")
            q = []
            for x in p:
                if len(x) == 1: x = (x[0], x[0])
                q.append((tof(x[0]), tof(x[1])))
            return q
        pw = norm(pad_width)
        f, sh = a.snapshot(), a._shape
        for lo, hi in pw:
            for t in (lo, hi):
                if not W.branch(tm.le(IZERO, t)): raise ValueError("index can't contain negative values")
        nsh = [tm.add(lo, n, hi) for (lo, hi), n in zip(pw, sh)]
        if mode == "constant":
            cv = kw.pop("constant_values", 0)
            if kw: raise ValueError("unsupported keyword arguments for mode constant")
            if isinstance(cv, (tuple, list)):
                if len(cv) != 2 or isinstance(cv[0], (tuple, list)): raise Unsupported("constant_values")
                cl, ch = rl(tof(cv[0])), rl(tof(cv[1]))
            else: cl = ch = rl(tof(cv))
            def g(*idx):
                t = f(*[tm.sub(i, lo) for i, (lo, hi) in zip(idx, pw)])
                for i, (lo, hi), n in zip(idx, pw, sh):
                    if not (lo is IZERO): t = tm.ite(tm.lt(i, lo), cl, t)
                    if not (hi is IZERO): t = tm.ite(tm.le(tm.add(lo, n), i), ch, t)
                return t
            return W.new(g, nsh, a.dtype)
        if mode == "edge":
            if kw: raise ValueError("unsupported keyword arguments for mode edge")
            def g(*idx):
                jj = []
                for i, (lo, hi), n in zip(idx, pw, sh):
                    j = tm.sub(i, lo)
                    if lo is not IZERO: j = tm.ite(tm.lt(i, lo), IZERO, j)
                    if hi is not IZERO: j = tm.ite(tm.le(tm.add(lo, n), i), tm.sub(n, IONE), j)
                    jj.append(j)
                return f(*jj)
            return W.new(g, nsh, a.dtype)
        raise Unsupported("pad mode")
    def interp(self, x, xp, fp, left=None, right=None, period=None):
        W = self.W
        if period is not None: raise Unsupported("period")
        xp, fp = self.asarray(xp), self.asarray(fp)
        if xp.ndim != 1 or fp.ndim != 1: raise ValueError("object too deep for desired array")
        W.must_eq(fp._shape, xp._shape, "fp and xp are not of the same length.")
        n = xp._shape[0]
        gx, gf = xp.snapshot(), fp.snapshot()
        l = gf(IZERO) if left is None else rl(tof(left))
        r = gf(tm.sub(n, IONE)) if right is None else rl(tof(right))
        return (W.ew if isinstance(x, Arr) else W.sc)(lambda t: W.interp_spec(rl(t), gx, gf, n, l, r), x)

def sum_idx(i, cs):
    o = IZERO
    for a, s in zip(i, cs): o = tm.add(o, tm.mul(I(a), s))
    return o

def interp_spec(W, x, gx, gf, n, l, r):
    """numpy.interp: the straight line across the bracketing interval j, found in the abscissae alone"""
    key = tm.lam(lambda i: gx(i))
    nm = W.brackets.setdefault((key, n), "BRK%d" % len(W.brackets))
    j = tm.ifn(nm, x)
    nx = tm.add(j, IONE)
    line = gf(j) + (x - gx(j)) * tm.div(gf(nx) - gf(j), gx(nx) - gx(j))
    last = tm.sub(n, IONE)
    return tm.ite(tm.lt(x, gx(IZERO)), l, tm.ite(tm.lt(gx(last), x), r, line))
World.interp_spec = interp_spec
def sc(self, f, x): return self.wrap(f(tof(x)))
World.sc = sc
def w_trapz(self, y, x, axis=-1):
    if x is None: raise Unsupported("trapz without abscissae")
    y, x = self.np.asarray(y), self.np.asarray(x)
    if y.ndim != 1 or x.ndim != 1: raise Unsupported("trapz")
    self.must_eq(y._shape, x._shape, "operands could not be broadcast together")
    fy, fx = y.snapshot(), x.snapshot()
    return self.wrap(tm.asum(IZERO, tm.sub(x._shape[0], IONE), lambda i: (fx(tm.add(i, IONE)) - fx(i)) * (rl(fy(i)) + rl(fy(tm.add(i, IONE)))) / 2))
World.trapz = w_trapz
def step_down(W, f, n, p):
    """assume f(i) for i < p and not f(i) for p <= i < n; the number of such i is p"""
    D = W.D
    D.require(tm.and_(tm.le(IZERO, p), tm.le(p, n)))
    D.require(tm.forall(IZERO, p, f))
    D.require(tm.forall(p, n, lambda i: tm.not_(f(i))))
    W.steps[(tm.lam(f), n)] = p
def step_up(W, f, n, p):
    """assume f(i) exactly for p <= i < n; the number of such i is n - p"""
    D = W.D
    D.require(tm.and_(tm.le(IZERO, p), tm.le(p, n)))
    D.require(tm.forall(IZERO, p, lambda i: tm.not_(f(i))))
    D.require(tm.forall(p, n, f))
    W.steps[(tm.lam(f), n)] = tm.sub(n, p)
World.step_down, World.step_up = step_down, step_up

# ------------------------------------------------------------------ ctypes' contracts
class CT(object):
    def __init__(self, name, conv=None): self.name = name
    def __repr__(self): return self.name
    def __call__(self, v=0): return CVal(self, v)
class CVal(object):
    def __init__(self, ct, v): self.ct, self.value = ct, v
class NdPtr(object):
    def __init__(self, dtype, ndim, shape, flags): self.dtype, self.ndim, self.shape, self.flags = dtype, ndim, shape, flags

CLASSES = {"c_double": ("real", 8), "c_size_t": ("int", 8), "c_ulong": ("int", 8), "c_long": ("int", 8), "c_int": ("int", 4), "c_uint": ("int", 4), "c_char_p": ("str", 8), "c_void_p": ("ptr", 8), "c_float": ("real", 4), "c_bool": ("int", 1)}
def proto_class(ty):
    ty = sx.clean(ty)
    if ty in ("double", "histo_t"): return ("real", 8)
    if ty == "float": return ("real", 4)
    if ty == "char *": return ("str", 8)
    if sx.is_ptr(ty): return ("ptr", 8)
    if ty in ("FLAG", "INTERPOL", "VERBOSITY"): return ("enum", 4)
    if ty in sx.SIZES: return ("int", sx.SIZES[ty])
    return (ty, 0)
def abi_ok(argtype, ty):
    """whether a ctypes argument type passes what a C parameter of type ty receives"""
    want = proto_class(ty)
    if isinstance(argtype, NdPtr) or (isinstance(argtype, str) and argtype == "ndpointer"): have = ("ptr", 8)
    else: have = CLASSES.get(argtype.name if isinstance(argtype, CT) else argtype, ("?", 0))
    if want[0] == "enum": return have[0] == "int"
    return have == want

class CFunc(object):
    def __init__(self, W, name, fn):
        self.W, self.__name__, self.fn = W, name, fn
        self.argtypes, self.restype = None, CT("c_int")
    def __call__(self, *args):
        W, D, fn = self.W, self.W.D, self.fn
        nm = self.__name__
        types = self.argtypes
        if types is not None and len(args) < len(types): raise TypeError("this function takes at least %d arguments" % len(types))
        W.calls.append(nm)
        W.check("%s: number of arguments" % nm, len(args) == len(fn.params))
        if len(args) != len(fn.params): raise Unsupported("%s: call with %d arguments" % (nm, len(args)))
        vals = []
        for i, (x, (pn, ty, _)) in enumerate(zip(args, fn.params)):
            at = types[i] if types is not None and i < len(types) else None
            if at is None:
                if isinstance(x, bytes): at = CT("c_char_p")
                elif isinstance(x, CVal): at = x.ct
                elif isinstance(x, (int,)) or (isinstance(x, S) and x.t.s == "I"): at = CT("c_int")
                else: raise TypeError("Don't know how to convert parameter %d" % (i + 1))
            W.check("%s: type of argument %s" % (nm, pn), abi_ok(at, ty))
            if not abi_ok(at, ty): raise Unsupported("%s: argument %s" % (nm, pn))
            if isinstance(x, CVal): x = x.value
            if isinstance(at, NdPtr):
                if not isinstance(x, Arr): raise TypeError("argument must be an ndarray")
                if W.dt(at.dtype) != x.dtype: raise TypeError("array must have data type %s" % at.dtype)
                if at.ndim is not None and at.ndim != x.ndim: raise TypeError("array must have %d dimension(s)" % at.ndim)
                if at.shape is not None: 
                    try: W.must_eq(tuple(tof(n) for n in at.shape), x._shape, "shape")
                    except ValueError: raise TypeError("array must have shape")
                if at.flags and "C" in str(at.flags) and not x.contiguous(): raise TypeError("array must have flags")
                vals.append(Ptr(x.buf.obj, (), x.off))
            elif at.name == "c_char_p":
                if not isinstance(x, bytes): raise TypeError("bytes expected")
                vals.append(D.E.strid(x.decode("utf-8")))
            elif CLASSES[at.name][0] == "real":
                vals.append(D.E.coerce(rl(tof(x)), ty))
            elif CLASSES[at.name][0] == "int":
                t = tof(x)
                if t.s == "B": t = tm.ite(t, IONE, IZERO)
                if t.s != "I": raise TypeError("integer expected")
                vals.append(D.E.coerce(t, ty))
            else: raise Unsupported("argument type")
        r = D.E.call(fn, vals, D.st)
        want = sx.clean(fn.ret)
        if want == "void": return S(W, tm.fresh("void", "I"))
        ok = self.restype is not None and abi_ok(self.restype, want)
        W.check("%s: type of the returned value" % nm, ok)
        if not ok: raise Unsupported("%s: returned value" % nm)
        return W.wrap(r)

class Cdll(object):
    def __init__(self, W): self.__dict__["_W"] = W; self.__dict__["_f"] = {}
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        if n not in self._f:
            fn = self._W.D.P.fn(n)
            if fn is None or fn.body is None or getattr(fn, "static", False): raise AttributeError("undefined symbol: " + n)
            self._f[n] = CFunc(self._W, n, fn)
        return self._f[n]
    __getitem__ = __getattr__

def check(self, label, ok):
    """a call-site condition"""
    D = self.D
    if self.real:
        D.results.append(("ensures", label, bool(ok), True, bool(ok)))
    else:
        if self.seen.get(label): return
        self.seen[label] = 1
        D.prove("call: " + label, TRUE if ok else FALSE)
World.check = check

def load_source():
    return open(SRC).read()

def fake_utils(libdir):
    u = types.ModuleType("pyregpt.utils")
    u.lib_dir = libdir
    # the package's own helpers, if it has any
    return u

def exec_module(W, importer, libdir, extra):
    src = load_source()
    mod = types.ModuleType("pyregpt.pyregpt")
    mod.__package__ = "pyregpt"
    mod.__file__ = SRC
    bi = dict(vars(builtins))
    bi.update(extra)
    bi["__import__"] = importer
    mod.__dict__["__builtins__"] = bi
    code = compile(src, SRC, "exec")
    if not W.real:
        # decimal literals are read as the numbers they spell, so that constant expressions are exact
        code = compile(ast.fix_missing_locations(Literals().visit(ast.parse(src, SRC))), SRC, "exec")
        mod.__dict__["__number__"] = lambda s: W.wrap(tm.num(Fraction(s)))
    exec(code, mod.__dict__)
    return mod

class Literals(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, float) and n.value == n.value and abs(n.value) != float("inf"):
            return ast.copy_location(ast.Call(func=ast.Name(id="__number__", ctx=ast.Load()), args=[ast.Constant(repr(n.value))], keywords=[]), n)
        return n

def ns(**kw):
    class M(Fake): pass
    m = M()
    m.__dict__.update(kw)
    return m

def sym_module(W):
    W.counts, W.brackets, W.seen, W.steps = {}, {}, {}, {}
    np_ = W.np
    ct = ns(**{n: CT(n) for n in CLASSES})
    W.ctypes_double = ct.c_double
    ct.RTLD_LOCAL, ct.RTLD_GLOBAL = 0, 256
    ct.CDLL = lambda path, mode=0, **kw: Cdll(W)
    ct.byref = None
    lib = ns(ndpointer=lambda dtype=None, ndim=None, shape=None, flags=None: NdPtr(dtype, ndim, shape, flags))
    np_.ctypeslib = lib
    sci_c = ns(pi=S(W, tm.PI))
    integ = ns(trapz=lambda y, x=None, dx=1., axis=-1, **kw: W.trapz(y, x, axis), trapezoid=lambda y, x=None, dx=1., axis=-1: W.trapz(y, x, axis))
    scipy = ns(constants=sci_c, integrate=integ)
    util = fake_utils("/nonexistent")
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            if name == "utils": return util
            return types.SimpleNamespace(utils=util) if not name else util
        if name == "numpy": return np_
        if name == "numpy.ctypeslib": return lib if fromlist else np_
        if name == "ctypes": return ct
        if name == "scipy": return scipy
        if name == "scipy.integrate": return integ if fromlist else scipy
        if name == "scipy.constants": return sci_c if fromlist else scipy
        if name == "math": return ns(pi=S(W, tm.PI), e=S(W, tm.exp(tm.ONE)), exp=np_.exp, log=np_.log, sqrt=np_.sqrt, sin=np_.sin, cos=np_.cos)
        if name in ("os", "functools", "copy", "itertools", "collections", "operator", "warnings", "re", "sys", "contextlib", "numbers", "types", "os.path", "logging", "weakref"):
            return builtins.__import__(name, globals, locals, fromlist, level)
        raise Unsupported("import " + name)
    def len_(x):
        if isinstance(x, Arr): return x.len_()
        f = getattr(type(x), "__len__", None)
        if f is not None and isinstance(f, types.FunctionType): return f(x)
        return builtins.len(x)
    def abs_(x): return x.__abs__() if isinstance(x, Sym) else builtins.abs(x)
    def float_(x=0.):
        if isinstance(x, Sym): return W.wrap(rl(tof(x)))
        return builtins.float(x)
    def int_(x=0, *a):
        if isinstance(x, Sym):
            t = tof(x)
            if t.s == "I": return W.wrap(t)
            if t.s == "B": return W.wrap(tm.ite(t, IONE, IZERO))
            raise Unsupported("int()")
        return builtins.int(x, *a)
    def mm(f, cmp):
        def g(*a, **kw):
            if kw: return f(*a, **kw)
            xs = list(a[0]) if len(a) == 1 else list(a)
            if not any(isinstance(x, Sym) for x in xs): return f(xs)
            if any(isinstance(x, Arr) and x.ndim for x in xs): raise Unsupported("min/max of arrays")
            t = tof(xs[0])
            for x in xs[1:]:
                u = tof(x)
                t = tm.ite(cmp(u, t), u, t)
            return W.wrap(t)
        return g
    def range_(*a): return builtins.range(*[int(x) if isinstance(x, S) else x for x in a])
    extra = dict(len=len_, abs=abs_, min=mm(builtins.min, lambda u, t: bin_("lt", u, t)), max=mm(builtins.max, lambda u, t: bin_("lt", t, u)), range=range_)
    extra["float"], extra["int"] = float_, int_
    m = exec_module(W, imp, "/nonexistent", extra)
    return m

# ------------------------------------------------------------------ the real thing
class RFunc(object):
    """a real ctypes function whose calls are compared with the C prototype first"""
    def __init__(self, W, name, f): self.__dict__.update(_W=W, _n=name, _f=f)
    def __setattr__(self, n, v): setattr(self._f, n, v)
    def __getattr__(self, n): return getattr(self._f, n)
    def __call__(self, *args):
        import numpy as np, ctypes
        W, f, nm = self._W, self._f, self._n
        fn = W.D.P.fn(nm) if W.D.P is not None else None
        W.D.log.append("%s(%s)" % (nm, ", ".join(repr(a)[:60] for a in args)))
        if W.D.report: W.D.report(W.D)
        if fn is not None:
            W.check("%s: number of arguments" % nm, len(args) == len(fn.params))
            at = f.argtypes
            for i, (x, (pn, ty, _)) in enumerate(zip(args, fn.params)):
                t = at[i] if at is not None and i < len(at) else None
                if t is None: name = {bytes: "c_char_p", int: "c_int"}.get(type(x), type(x).__name__)
                elif hasattr(t, "_ndim_"):
                    name = "ndpointer"
                    if isinstance(x, np.ndarray): W.check("%s: contiguous array for %s" % (nm, pn), x.flags["C_CONTIGUOUS"])
                else: name = t.__name__
                # ctypes spells some types by their platform alias
                name = {"c_ulong": "c_size_t"}.get(name, name)
                W.check("%s: type of argument %s" % (nm, pn), abi_ok(name, ty))
            want = sx.clean(fn.ret)
            if want != "void":
                rt = f.restype
                W.check("%s: type of the returned value" % nm, rt is not None and abi_ok(rt.__name__, want))
        if any(r[0] == "ensures" and r[1].startswith(nm + ":") and not r[4] for r in W.D.results): raise CallRefused(nm)
        r = f(*args)
        hc = W.D.lib.verif_heap_check
        hc.restype = ctypes.c_char_p
        e = hc()
        if e: W.D.results.append(("memory", "%s: %s" % (nm, e.decode()), float("nan"), 0., False))
        return r
class CallRefused(Exception): pass

class RLib(object):
    def __init__(self, W, path, **kw):
        import ctypes
        self.__dict__.update(_W=W, _l=ctypes.CDLL(path, mode=ctypes.RTLD_LOCAL), _f={})
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        if n not in self._f: self._f[n] = RFunc(self._W, n, getattr(self._l, n))
        return self._f[n]

def real_module(W):
    import ctypes, numpy, scipy, scipy.integrate, scipy.constants
    import realc
    so = realc.build()
    integ = scipy.integrate
    for a, b in (("trapz", "trapezoid"), ("cumtrapz", "cumulative_trapezoid"), ("simps", "simpson")):
        if not hasattr(integ, a) and hasattr(integ, b): setattr(integ, a, getattr(integ, b))
    if not hasattr(numpy, "trapz"): numpy.trapz = numpy.trapezoid
    numpy.seterr(all="ignore")
    class Ct(object):
        def __getattr__(self, n): return getattr(ctypes, n)
    ct = Ct()
    ct.CDLL = lambda path, mode=0, **kw: RLib(W, so)
    util = fake_utils(os.path.dirname(so))
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level: return util if name == "utils" else types.SimpleNamespace(utils=util)
        if name == "ctypes": return ct
        return builtins.__import__(name, globals, locals, fromlist, level)
    return exec_module(W, imp, os.path.dirname(so), {})

def world(D):
    """the Python package for a driver"""
    return World(D)

def guarded(drv):
    """a driver over the Python package: an exception of the package on valid inputs is a failure of the contract"""
    import functools
    @functools.wraps(drv)
    def run(D, **case):
        W = World(D)
        if not D.real_mode:
            try: return drv(D, W, **case)
            except (Unsupported, sx.ExitSig): raise
            except Exception as e:
                import driver, traceback
                if isinstance(e, driver.Reject) or type(e).__name__ in ("Timeout",): raise
                raise Unsupported("Python: %s: %s @ %s" % (type(e).__name__, e, [l.strip() for l in traceback.format_exc().splitlines() if "line" in l][-3:]))
        import driver
        try: return drv(D, W, **case)
        except driver.Reject: raise
        except (tm.EvalError, Unsupported): raise
        except CallRefused: return
        except Exception as e:
            import traceback
            D.results.append(("ensures", "raises %s: %s" % (type(e).__name__, str(e)[:200]), " | ".join(x.strip() for x in traceback.format_exc().splitlines()[-6:])[:400], "", False))
    return run
