"""Hash-consed terms over reals (R), mathematical integers (I), booleans (B) and arrays (A)."""
from fractions import Fraction
import math

class T(object):
    __slots__ = ("op", "a", "s", "id", "bh", "fv", "hite")
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    # arithmetic sugar (used by the specifications)
    def __add__(self, o): return add(self, lift(o, self.s))
    def __radd__(self, o): return add(lift(o, self.s), self)
    def __sub__(self, o): return sub(self, lift(o, self.s))
    def __rsub__(self, o): return sub(lift(o, self.s), self)
    def __mul__(self, o): return mul(self, lift(o, self.s))
    def __rmul__(self, o): return mul(lift(o, self.s), self)
    def __truediv__(self, o): return div(self, lift(o, self.s))
    def __rtruediv__(self, o): return div(lift(o, self.s), self)
    def __neg__(self): return neg(self)
    def __pow__(self, n): return pw(self, n)
    def __lt__(self, o): return lt(self, lift(o, self.s))
    def __le__(self, o): return le(self, lift(o, self.s))
    def __gt__(self, o): return lt(lift(o, self.s), self)
    def __ge__(self, o): return le(lift(o, self.s), self)
    def __getitem__(self, i): return sel(self, lift(i, "I"))

_tab = {}
_ids = [0]
EMPTY = frozenset()

def mk(op, s, *a):
    key = (op, s) + a
    t = _tab.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.s, t.a = op, s, a
        _ids[0] += 1
        t.id = _ids[0]
        bh, hite = 0, (op == "ite")
        fv = None
        for x in a:
            if x.__class__ is T:
                if x.bh > bh: bh = x.bh
                if x.hite: hite = True
                if fv is None: fv = x.fv
                elif x.fv is not fv and x.fv: fv = fv | x.fv if fv else x.fv
        if op == "var": fv = frozenset((t,))
        elif op in ("sum", "lam", "all"):
            b = a[0]
            fv = (fv or EMPTY) - {b}
            bh += 1
            hite = False if op != "ite" else hite
        t.bh, t.fv, t.hite = bh, fv or EMPTY, hite
        _tab[key] = t
    return t

def num(x, s="R"):
    if s == "I":
        return mk("num", "I", int(x))
    x = Fraction(x)
    if x.denominator == 1: x = Fraction(int(x))
    return mk("num", "R", x)
UNSIGNED = set()     # variables of an unsigned type
def var(name, s="R"): return mk("var", s, name)
_fresh = [0]
def fresh(base, s="R"):
    _fresh[0] += 1
    return var("%s!%d" % (base, _fresh[0]), s)

def lift(x, s="R"):
    if isinstance(x, T):
        if x.s == "I" and s == "R": return i2r(x)
        return x
    if isinstance(x, bool): return TRUE if x else FALSE
    if s == "I" and isinstance(x, float): raise TypeError("float into int")
    if isinstance(x, float): x = Fraction(repr(x))
    return num(x, s)

TRUE = mk("true", "B")
FALSE = mk("false", "B")
ZERO, ONE = num(0), num(1)
IZERO, IONE = num(0, "I"), num(1, "I")
PI = var("pi")

def isnum(t): return t.op == "num"
def add(*ts):
    s = "R" if any(t.s == "R" for t in ts) else "I"
    c, out = 0, []
    for t in ts:
        if t.s != s: t = i2r(t)
        if t.op == "num": c += t.a[0]
        elif t.op == "add":
            for u in t.a:
                if u.op == "num": c += u.a[0]
                else: out.append(u)
        else: out.append(t)
    if s == "I" and len(out) > 1: out = _icomb(out)
    if s == "I" and c == 0 and len(out) == 1: return out[0]
    if not out: return num(c, s)
    if c != 0: out.append(num(c, s))
    if len(out) == 1: return out[0]
    return mk("add", s, *out)
def _icomb(out):
    """integers: combine equal terms so that i+1-i folds"""
    d, order = {}, []
    for t in out:
        k, c = t, 1
        if t.op == "mul" and t.a[0].op == "num":
            c = t.a[0].a[0]; k = mul(*t.a[1:]) if len(t.a) > 2 else t.a[1]
        if k not in d: d[k] = 0; order.append(k)
        d[k] += c
    return [mul(num(d[k], "I"), k) for k in order if d[k] != 0]
def mul(*ts):
    s = "R" if any(t.s == "R" for t in ts) else "I"
    c, out = 1, []
    for t in ts:
        if t.s != s: t = i2r(t)
        if t.op == "num": c *= t.a[0]
        elif t.op == "mul":
            for u in t.a:
                if u.op == "num": c *= u.a[0]
                else: out.append(u)
        else: out.append(t)
    if c == 0: return num(0, s)
    if not out: return num(c, s)
    if s == "I" and len(out) == 1 and out[0].op == "add" and c != 1:
        return add(*[mul(num(c, "I"), u) for u in out[0].a])
    if c != 1: out.insert(0, num(c, s))
    if len(out) == 1: return out[0]
    return mk("mul", s, *out)
def neg(t): return mul(num(-1, t.s), t)
def sub(a, b): return add(a, neg(b))
def pw(t, n):
    if isinstance(n, T):
        if n.op == "num" and Fraction(n.a[0]).denominator == 1: n = int(n.a[0])
        else: return fn("powr", t, n)
    if isinstance(n, float) and n == int(n): n = int(n)
    if not isinstance(n, int): return fn("powr", t, lift(n))
    if n == 1: return t
    if n == 0: return num(1, t.s)
    if t.op == "num" and (n > 0 or t.a[0] != 0): return num(Fraction(t.a[0]) ** n, t.s)
    if t.op == "pow": return pw(t.a[0], t.a[1] * n)
    return mk("pow", t.s, t, n)
def div(a, b):
    if a.s == "I": a = i2r(a)
    if b.s == "I": b = i2r(b)
    if b.op == "num" and b.a[0] != 0: return mul(a, num(1 / Fraction(b.a[0])))
    return mul(a, pw(b, -1))
def i2r(t):
    if t.op == "num": return num(t.a[0])
    if t.op == "add": return add(*[i2r(u) for u in t.a])
    if t.op == "mul": return mul(*[i2r(u) for u in t.a])
    if t.op == "ite": return ite(t.a[0], i2r(t.a[1]), i2r(t.a[2]))
    return mk("i2r", "R", t)
def fn(name, *args):
    """a real-valued function; known ones get their meaning in nf/eval"""
    args = tuple(lift(x) if not isinstance(x, T) else x for x in args)
    if all(x.op == "num" for x in args):
        v = args[0].a[0] if args else None
        if name == "exp" and v == 0: return ONE
        if name == "log" and v == 1: return ZERO
        if name == "abs": return num(abs(v))
        if name == "sin" and v == 0: return ZERO
        if name == "cos" and v == 0: return ONE
        if name == "sqrt" and v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator: return num(Fraction(n, d))
    if name == "powr" and args[1].op == "num":
        e = Fraction(args[1].a[0])
        if e.denominator == 1: return pw(args[0], int(e))
        if e.denominator == 2: return pw(fn("sqrt", args[0]), e.numerator)
    return mk("fn", "R", name, *args)
def log(x): return fn("log", x)
def exp(x): return fn("exp", x)
def sqrt(x): return fn("sqrt", x)
def absr(x):
    if x.op == "num": return num(abs(x.a[0]), x.s)
    return fn("abs", x)
def sin(x): return fn("sin", x)
def cos(x): return fn("cos", x)
def ifn(name, *args): return mk("ifn", "I", name, *args)
def bfn(name, *args): return mk("bfn", "B", name, *args)

def lt(a, b):
    if a.s != b.s: a, b = lift(a, "R"), lift(b, "R")
    if a is b: return FALSE
    if a.op == "num" and b.op == "num": return TRUE if a.a[0] < b.a[0] else FALSE
    if a.s == "I":
        d = sub(b, a)
        if d.op == "num": return TRUE if d.a[0] > 0 else FALSE
    return mk("lt", "B", a, b)
def le(a, b):
    if a.s != b.s: a, b = lift(a, "R"), lift(b, "R")
    if a is b: return TRUE
    if a.op == "num" and b.op == "num": return TRUE if a.a[0] <= b.a[0] else FALSE
    if a.s == "I":
        d = sub(b, a)
        if d.op == "num": return TRUE if d.a[0] >= 0 else FALSE
        return lt(a, add(b, IONE))
    return not_(mk("lt", "B", b, a))
def eq(a, b):
    if a.s != b.s: a, b = lift(a, "R"), lift(b, "R")
    if a is b: return TRUE
    if a.op == "num" and b.op == "num": return TRUE if a.a[0] == b.a[0] else FALSE
    if a.s == "B":
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.s == "I":
        d = sub(a, b)
        if d.op == "num": return TRUE if d.a[0] == 0 else FALSE
        if a.op == "ite" and b.op == "num": return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
        if b.op == "ite" and a.op == "num": return eq(b, a)
    if a.id > b.id: a, b = b, a
    return mk("eq", "B", a, b)
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.a[0]
    return mk("not", "B", a)
def and_(*ts):
    out, seen = [], set()
    for t in ts:
        for u in (t.a if t.op == "and" else (t,)):
            if u is TRUE or u in seen: continue
            if u is FALSE: return FALSE
            if not_(u) in seen: return FALSE
            seen.add(u); out.append(u)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk("and", "B", *out)
def or_(*ts):
    out, seen = [], set()
    for t in ts:
        for u in (t.a if t.op == "or" else (t,)):
            if u is FALSE or u in seen: continue
            if u is TRUE: return TRUE
            if not_(u) in seen: return TRUE
            seen.add(u); out.append(u)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk("or", "B", *out)
def implies(a, b): return or_(not_(a), b)
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.s != b.s:
        if {a.s, b.s} == {"R", "I"}: a, b = lift(a, "R"), lift(b, "R")
        else: raise TypeError("ite sorts %s %s" % (a.s, b.s))
    if a.s == "B": return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not": c, a, b = c.a[0], b, a
    if a.op == "ite" and a.a[0] is c: a = a.a[1]
    if b.op == "ite" and b.a[0] is c: b = b.a[2]
    if a is b: return a
    return mk("ite", a.s, c, a, b)

def idiv(a, b):
    if b.op == "num":
        n = b.a[0]
        if n == 1: return a
        if a.op == "num": return num(a.a[0] // n, "I")
        parts = a.a if a.op == "add" else (a,)
        q, r = [], []
        for t in parts:
            if t.op == "num": q.append(num(t.a[0] // n, "I")); r.append(num(t.a[0] % n, "I"))
            elif t.op == "mul" and t.a[0].op == "num" and t.a[0].a[0] % n == 0:
                q.append(mul(num(t.a[0].a[0] // n, "I"), *t.a[1:]))
            else: r.append(t)
        rr = add(*r) if r else IZERO
        if q:
            if rr.op == "num": return add(*(q + [num(rr.a[0] // n, "I")]))
            return add(*(q + [mk("idiv", "I", rr, b)]))
    return mk("idiv", "I", a, b)
def imod(a, b):
    if b.op == "num":
        n = b.a[0]
        if n == 1: return IZERO
        if a.op == "num": return num(a.a[0] % n, "I")
        parts = a.a if a.op == "add" else (a,)
        r = []
        for t in parts:
            if t.op == "num": r.append(num(t.a[0] % n, "I"))
            elif t.op == "mul" and t.a[0].op == "num" and t.a[0].a[0] % n == 0: pass
            else: r.append(t)
        rr = add(*r) if r else IZERO
        if rr.op == "num": return num(rr.a[0] % n, "I")
        return mk("imod", "I", rr, b)
    return mk("imod", "I", a, b)

# arrays: total functions I -> R (or I)
def avar(name, es="R"): return mk("var", "A" + es, name)
def sel(arr, i):
    if arr.op == "store":
        base, j, v = arr.a
        c = eq(i, j)
        if c is TRUE: return v
        if c is FALSE: return sel(base, i)
        return ite(c, v, sel(base, i))
    if arr.op == "lam": return subst(arr.a[1], {arr.a[0]: i})
    if arr.op == "const": return arr.a[0]
    if arr.op == "ite": return ite(arr.a[0], sel(arr.a[1], i), sel(arr.a[2], i))
    return mk("sel", arr.s[1:], arr, i)
def store(arr, i, v):
    if arr.op == "store" and arr.a[1] is i: arr = arr.a[0]
    return mk("store", arr.s, arr, i, v)
def aconst(v): return mk("const", "A" + v.s, v)
def lam(f, es=None):
    b = fresh("lb", "I")
    body = f(b)
    if body.op == "sel" and body.a[1] is b and b not in body.a[0].fv: return body.a[0]
    return _bind("lam", "A" + body.s, b, body)
def _bind(op, s, b, body, *rest):
    h = body.bh
    for r in rest: h = max(h, r.bh)
    cb = var("#%d" % (h), "I")
    if cb is not b:
        body = subst(body, {b: cb})
        if body.bh != h:           # cannot happen (renaming keeps heights); guard anyway
            cb2 = var("#%d" % body.bh, "I"); body = subst(body, {cb: cb2}); cb = cb2
    return mk(op, s, cb, body, *rest)
def lam_b(b, body): return _bind("lam", "A" + body.s, b, body)
def forall(lo, hi, f):
    b = fresh("qb", "I")
    body = f(b)
    if body is TRUE: return TRUE
    return _bind("all", "B", b, body, lo, hi)
def asum(lo, hi, f):
    """sum of f(i) for lo <= i < hi"""
    lo, hi = lift(lo, "I"), lift(hi, "I")
    b = fresh("sb", "I")
    body = f(b)
    return sum_b(b, lo, hi, body)
def sum_b(b, lo, hi, body):
    if body.s == "I": body = i2r(body)
    if body.op == "num" and body.a[0] == 0: return ZERO
    if lo.op == "num" and hi.op == "num" and hi.a[0] - lo.a[0] <= 64:
        return add(ZERO, *[subst(body, {b: num(k, "I")}) for k in range(lo.a[0], hi.a[0])])
    d = sub(hi, lo)
    if d.op == "num" and d.a[0] <= 0: return ZERO
    return _bind("sum", "R", b, body, lo, hi)

_build = {"add": add, "mul": mul, "lt": lt, "eq": eq, "not": not_, "and": and_, "or": or_, "ite": ite,
          "i2r": i2r, "idiv": idiv, "imod": imod, "sel": sel, "store": store, "const": aconst}

def rebuild(t, args):
    op = t.op
    f = _build.get(op)
    if f: return f(*args)
    if op == "pow": return pw(args[0], args[1])
    if op == "fn": return fn(args[0], *args[1:])
    if op in ("ifn", "bfn"): return mk(op, t.s, *args)
    if op == "sum": return sum_b(*[args[0], args[2], args[3], args[1]])
    if op == "lam": return lam_b(args[0], args[1])
    if op == "all":
        if args[1] is TRUE: return TRUE
        return _bind("all", "B", *args)
    return mk(op, t.s, *args)

def subst(t, m, memo=None):
    """capture-avoiding substitution of terms for terms (usually variables)"""
    if memo is None: memo = {}
    keys = set(m)
    allvars = all(k.op == "var" for k in keys)
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if t in m: r = m[t]
        elif allvars and not (t.fv & keys): r = t
        elif t.op in ("sum", "lam", "all"):
            b = t.a[0]
            nb = fresh("ob", "I")
            body = subst(t.a[1], {b: nb})
            body = go(body)
            rest = [go(x) for x in t.a[2:]]
            r = rebuild(t, [nb, body] + rest)
        elif not t.a or not any(x.__class__ is T for x in t.a): r = t
        else:
            ch = False
            args = []
            for x in t.a:
                if x.__class__ is T:
                    y = go(x)
                    if y is not x: ch = True
                    args.append(y)
                else: args.append(x)
            r = rebuild(t, args) if ch else t
        memo[t] = r
        return r
    import sys
    if sys.getrecursionlimit() < 200000: sys.setrecursionlimit(200000)
    return go(t)

def subterms(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        for y in x.a:
            if y.__class__ is T: st.append(y)
    return seen

def show(t, d=0):
    if d > 12: return "..."
    o = t.op
    if o == "num": return str(t.a[0])
    if o == "var": return str(t.a[0])
    A = [show(x, d + 1) if x.__class__ is T else str(x) for x in t.a]
    if o == "add": return "(" + " + ".join(A) + ")"
    if o == "mul": return "*".join(A)
    if o == "pow": return "%s^%s" % tuple(A)
    if o in ("fn", "ifn", "bfn"): return "%s(%s)" % (A[0], ", ".join(A[1:]))
    if o == "sel": return "%s[%s]" % tuple(A)
    if o == "ite": return "(%s ? %s : %s)" % tuple(A)
    if o == "lt": return "%s < %s" % tuple(A)
    if o == "eq": return "%s = %s" % tuple(A)
    if o == "i2r": return A[0]
    if o == "sum": return "Sum{%s<=%s<%s}(%s)" % (A[2], A[0], A[3], A[1])
    return "%s(%s)" % (o, ", ".join(A))

# ------------------------------------------------------------------ evaluation
class EvalError(Exception): pass

def evaluate(t, env, M=None, memo=None):
    """Numeric value.  env maps variable names to numbers / lists / callables; functions may be given as
    env['fn:name'].  M is a module with log, exp, sqrt, ... (math or mpmath)."""
    import math as _m
    M = M or _m
    memo = {} if memo is None else memo
    mp = M is not _m
    def cnum(x):
        if mp: return M.mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else x
        return float(x) if isinstance(x, Fraction) and x.denominator != 1 else (float(x) if isinstance(x, Fraction) else x)
    def go(t, loc):
        key = t if not loc else None
        if key is not None and key in memo: return memo[key]
        v = ev(t, loc)
        if key is not None: memo[key] = v
        return v
    def ev(t, loc):
        op, a = t.op, t.a
        if op == "num": return cnum(a[0])
        if op == "var":
            if t in loc: return loc[t]
            n = a[0]
            if n in env: return env[n]
            if n == "pi": return M.pi if not mp else +M.pi
            raise EvalError("no value for " + n)
        lo2 = loc
        if loc and not (t.fv & set(loc)): lo2 = {}
        if lo2 is not loc: return go(t, {})
        if op == "add":
            s = go(a[0], loc)
            for x in a[1:]: s = s + go(x, loc)
            return s
        if op == "mul":
            s = go(a[0], loc)
            for x in a[1:]: s = s * go(x, loc)
            return s
        if op == "pow":
            x = go(a[0], loc)
            if t.s == "R" and a[1] < 0:
                try: return 1 / (x ** (-a[1]))
                except ZeroDivisionError: return float("inf") if not mp else M.inf
            return x ** a[1]
        if op == "i2r":
            v = go(a[0], loc)
            return M.mpf(v) if mp else float(v)
        if op == "idiv":
            x, y = go(a[0], loc), go(a[1], loc)
            return x // y
        if op == "imod": return go(a[0], loc) % go(a[1], loc)
        if op == "lt": return go(a[0], loc) < go(a[1], loc)
        if op == "eq": return go(a[0], loc) == go(a[1], loc)
        if op == "not": return not go(a[0], loc)
        if op == "and": return all(go(x, loc) for x in a)
        if op == "or": return any(go(x, loc) for x in a)
        if op == "true": return True
        if op == "false": return False
        if op == "ite": return go(a[1], loc) if go(a[0], loc) else go(a[2], loc)
        if op in ("fn", "ifn", "bfn"):
            args = [go(x, loc) for x in a[1:]]
            f = env.get("fn:" + a[0])
            if f is not None: return f(*args)
            return builtin(a[0], args)
        if op == "sel":
            i = go(a[1], loc)
            arr = a[0]
            return selv(arr, i, loc)
        if op == "sum":
            b, body, lo, hi = a
            s = M.mpf(0) if mp else 0.0
            for i in range(int(go(lo, loc)), int(go(hi, loc))):
                l2 = dict(loc); l2[b] = i
                s = s + go(body, l2)
            return s
        if op == "all":
            b, body, lo, hi = a
            for i in range(int(go(lo, loc)), int(go(hi, loc))):
                l2 = dict(loc); l2[b] = i
                if not go(body, l2): return False
            return True
        raise EvalError("cannot evaluate " + op)
    def selv(arr, i, loc):
        while True:
            if arr.op == "store":
                if go(arr.a[1], loc) == i: return go(arr.a[2], loc)
                arr = arr.a[0]
            elif arr.op == "lam":
                l2 = dict(loc); l2[arr.a[0]] = i
                return go(arr.a[1], l2)
            elif arr.op == "const": return go(arr.a[0], loc)
            elif arr.op == "ite": arr = arr.a[1] if go(arr.a[0], loc) else arr.a[2]
            else:
                v = go(arr, loc)
                if callable(v): return v(i)
                if i < 0 or i >= len(v): return float("nan")
                return v[i]
    def builtin(name, x):
        try:
            if name == "log":
                if x[0] <= 0: return float("-inf") if x[0] == 0 else float("nan")
                return M.log(x[0])
            if name == "exp": return M.exp(x[0])
            if name == "sqrt": return M.sqrt(x[0]) if x[0] >= 0 else float("nan")
            if name == "abs": return abs(x[0])
            if name == "sin": return M.sin(x[0])
            if name == "cos": return M.cos(x[0])
            if name == "powr": return M.pow(x[0], x[1]) if not mp else M.power(x[0], x[1])
        except (OverflowError, ValueError):
            return float("nan")
        raise EvalError("no value for function " + name)
    import sys
    if sys.getrecursionlimit() < 200000: sys.setrecursionlimit(200000)
    return go(t, {})

# ------------------------------------------------------------------ a value that does not depend on how a term is written
_BUILTIN = ("log", "exp", "sqrt", "abs", "sin", "cos", "powr")
def _hash(*a):
    import zlib
    return 0.3 + (zlib.crc32(repr(a).encode()) % 100003) / 100003.
class _HashEnv(dict):
    def __contains__(self, n): return n != "pi"
    def __getitem__(self, n):
        v = dict.get(self, n)
        return v if v is not None else _hash(n)
    def get(self, n, d=None):
        if n.startswith("fn:"):
            if n[3:] in _BUILTIN: return None
            return lambda *a: _hash(n, *[round(float(x), 9) for x in a])
        return self[n]
def numkey(ts):
    """the same number for terms that denote the same value (used only to order the arguments of symmetric functions)"""
    env = _HashEnv()
    for t in ts:
        for s in subterms(t):
            if s.op == "var":
                n = s.a[0]
                if s.s == "I": dict.__setitem__(env, n, 3 if ("#" in n or "~" in n or "!" in n) else 2 + int(_hash(n) * 4))
                elif s.s.startswith("A"): dict.__setitem__(env, n, (lambda n: lambda i: _hash(n, int(i)))(n))
                else: dict.__setitem__(env, n, _hash(n))
    try: return tuple(round(float(evaluate(t, env)), 8) for t in ts)
    except Exception: return (0.,)
