"""Exact algebra of closed forms with logarithms and square roots, and their expansions in a small parameter.

A closed form is expanded in a variable t: a series whose coefficients are linear in logarithms, with coefficients that are
Laurent polynomials over the rationals.  A polynomial that has to be inverted gets a name (its irreducible factors are
used), a polynomial whose square root is taken gets a root symbol whose square it is; a coefficient is zero when, the names
cleared from its denominators and replaced by what they stand for and the squares of roots likewise, no monomial is left.
The same evaluation with numbers for the other variables (`Num`) gives the value of a coefficient."""
from fractions import Fraction as Fr
import terms as tm

B = 1 << 14          # an exponent occupies one balanced digit of the key of a monomial
H = B >> 1

class Cannot(Exception): pass

def digits(k):
    out, i = [], 0
    while k:
        d = (k + H) % B - H
        if d: out.append((i, d))
        k = (k - d) // B
        i += 1
    return out
def digit(k, i): return ((k + (H * (B ** (i + 1) - 1)) // (B - 1)) // B ** i) % B - H

class Sym(object):
    """the ring: variables first, then names and roots as they come"""
    def __init__(self, variables):
        self.names, self.defs = list(variables), [None] * len(variables)
        self.idx = {v: i for i, v in enumerate(variables)}
        self.kinds = ["var"] * len(variables)
        self.known, self.logs = {}, []
        self.roots = []
    # ---- polynomials: {key: Fraction}
    def const(self, x):
        x = Fr(x)
        return {0: x} if x else {}
    def var(self, n): return {B ** self.idx[n]: Fr(1)}
    def padd(self, a, b):
        if len(a) < len(b): a, b = b, a
        r = dict(a)
        for k, v in b.items():
            x = r.get(k, 0) + v
            if x: r[k] = x
            else: del r[k]
        return r
    def pscale(self, a, c): return {k: v * c for k, v in a.items()} if c else {}
    def pmul(self, a, b):
        if len(a) > len(b): a, b = b, a
        r = {}
        for k, v in a.items():
            for l, w in b.items():
                m = k + l
                r[m] = r.get(m, 0) + v * w
        r = {k: v for k, v in r.items() if v}
        return self.reduce(r) if self.roots else r
    def reduce(self, p):
        """squares of roots replaced"""
        for i in self.roots:
            todo = {}
            out = {}
            for k, v in p.items():
                d = digit(k, i)
                if d in (0, 1): out[k] = out.get(k, 0) + v
                else:
                    e = d & 1
                    todo.setdefault((d - e) // 2, {})[k - (d - e) * B ** i] = v
            if todo:
                for n, q in todo.items():
                    q = self.pmul(q, self.ppow(self.defs[i], n) if n > 0 else self.ppow(self.pinv(self.defs[i]), -n))
                    out = self.padd({k: v for k, v in out.items() if v}, q)
            p = {k: v for k, v in out.items() if v}
        return p
    def ppow(self, a, n):
        if n < 0: return self.ppow(self.pinv(a), -n)
        r = {0: Fr(1)}
        while n:
            if n & 1: r = self.pmul(r, a)
            n >>= 1
            if n: a = self.pmul(a, a)
        return r
    def clear(self, p):
        """(polynomial, key): p = polynomial * monomial(key), the polynomial in variables and roots only"""
        p = dict(p)
        low = 0
        while True:
            top = max([i for k in p for i, d in digits(k) if self.kinds[i] == "name"], default=None)
            if top is None: break
            lo = min(digit(k, top) for k in p)
            low += lo * B ** top
            by = {}
            for k, v in p.items():
                d = digit(k, top)
                by.setdefault(d - lo, {})[k - d * B ** top] = v
            r, pw, at = {}, {0: Fr(1)}, 0
            for d in sorted(by):
                while at < d: pw, at = self.mulraw(pw, self.defs[top]), at + 1
                r = self.padd(r, self.mulraw(by[d], pw))
            p = r
            if not p: return {}, 0
        return p, low
    def mulraw(self, a, b):
        """product, with the squares of roots replaced by what they stand for"""
        r = {}
        if len(a) > len(b): a, b = b, a
        for k, v in a.items():
            for l, w in b.items(): r[k + l] = r.get(k + l, 0) + v * w
        r = {k: v for k, v in r.items() if v}
        for i in self.roots:
            if any(digit(k, i) > 1 for k in r):
                out = {}
                for k, v in r.items():
                    d = digit(k, i)
                    if d <= 1: out = self.padd(out, {k: v})
                    else:
                        e = d & 1
                        q = {k - (d - e) * B ** i: v}
                        for _ in range((d - e) // 2): q = self.mulraw(q, self.defs[i])
                        out = self.padd(out, q)
                r = out
        return r
    def iszero(self, p):
        if not p: return True
        if len(p) == 1: return False
        # roots in denominators
        for i in self.roots:
            lo = min(digit(k, i) for k in p)
            if lo < 0: p = {k - (lo - (lo & 1)) * B ** i: v for k, v in p.items()}
        return not self.clear(p)[0]
    def tidy(self, p):
        """over a common denominator, reduced"""
        if len(p) < 2: return p
        ns = [i for i in range(len(self.names)) if self.kinds[i] == "name" and any(digit(k, i) for k in p)]
        if not ns: return p
        for i in self.roots:
            if any(digit(k, i) < 0 for k in p): return p
        q, low = self.clear(p)
        if not q: return {}
        for i in ns:
            d = self.defs[i]
            while digit(low, i) < 0:
                r = self.divide(q, d)
                if r is None: break
                q, low = r, low + B ** i
        return {k + low: v for k, v in q.items()}
    def divide(self, p, d):
        """p / d when exact; both without names"""
        sh = 0
        for i in set(i for k in p for i, e in digits(k)): sh += min(digit(k, i) for k in p) * B ** i
        p = {k - sh: v for k, v in p.items()}
        ld = max(d)
        dl, cl = digits(ld), d[ld]
        import heapq
        r, q = dict(p), {}
        h = [-k for k in r]
        heapq.heapify(h)
        rest = [(k, v) for k, v in d.items() if k != ld]
        while h:
            k = -heapq.heappop(h)
            if k not in r: continue
            m = k - ld
            if any(e < 0 for _, e in digits(m)): return None
            c = r.pop(k) / cl
            q[m] = c
            for a, v in rest:
                z = m + a
                if z in r:
                    x = r[z] - c * v
                    if x: r[z] = x
                    else: del r[z]
                else:
                    r[z] = -c * v
                    heapq.heappush(h, -z)
        return {k + sh: v for k, v in q.items()}
    def sympy(self, p):
        import sympy
        xs = [sympy.Symbol("x%d" % i) for i in range(len(self.names))]
        return sum(sympy.Rational(v.numerator, v.denominator) * sympy.Mul(*[xs[i] ** d for i, d in digits(k)]) for k, v in p.items()), xs
    def fromsympy(self, e, xs):
        import sympy
        P = sympy.Poly(e, *xs)
        return {sum(d * B ** i for i, d in enumerate(m)): Fr(int(c.p), int(c.q)) for m, c in P.terms()}
    def split(self, p):
        """(coefficient, monomial key, [(irreducible polynomial, multiplicity)]), names removed"""
        if len(p) == 1:
            (k, v), = p.items()
            return v, k, []
        q, low = self.clear(p)
        if not q: raise Cannot("division by zero")
        m = {}
        for i in set(i for k in q for i, d in digits(k)) | set():
            m[i] = min(digit(k, i) for k in q)
        sh = sum(d * B ** i for i, d in m.items())
        q = {k - sh: v for k, v in q.items()}
        low += sh
        if len(q) == 1:
            (k, v), = q.items()
            return v, low + k, []
        import sympy
        if any(digit(k, i) for k in q for i in self.roots):
            c = next(iter(q.values()))
            return c, low, [(self.pscale(q, 1 / c), 1)]
        e, xs = self.sympy(q)
        used = [x for x in xs if e.has(x)]
        c, fs = sympy.factor_list(e, *used)
        c = Fr(int(c.p), int(c.q))
        out = []
        for f, n in fs:
            f = self.fromsympy(f.as_expr() if hasattr(f, "as_expr") else f, xs)
            lead = f[max(f)]
            c *= lead ** n
            out.append((self.pscale(f, 1 / lead), n))
        return c, low, out
    def name(self, f):
        key = ("name", frozenset(f.items()))
        if key not in self.known:
            i = len(self.names)
            self.names.append("n%d" % i); self.defs.append(f); self.kinds.append("name")
            self.known[key] = i
        return self.known[key]
    def pinv(self, p):
        if not p: raise Cannot("division by zero")
        for i in reversed(self.roots):
            if len(p) > 1 and any(digit(k, i) for k in p):
                # rationalised
                conj = {k: -v if digit(k, i) & 1 else v for k, v in p.items()}
                n = self.pmul(p, conj)
                if self.iszero(n): raise Cannot("division by zero")
                return self.pmul(conj, self.pinv(n))
        c, k, fs = self.split(p)
        r = -k
        for f, n in fs: r -= n * B ** self.name(f)
        p = {r: 1 / c}
        return self.reduce(p) if self.roots else p
    def psqrt(self, p):
        if not p: return {}
        c, k, fs = self.split(p)
        if c < 0: c, neg = -c, True
        else: neg = False
        import math
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        r, odd = 0, []
        if a * a == c.numerator and b * b == c.denominator: c0, rest = Fr(a, b), Fr(1)
        else: c0, rest = Fr(1), c
        if neg: rest = -rest
        for i, d in digits(k):
            if self.kinds[i] == "root": raise Cannot("root of a root")
            h, o = divmod(d, 2)
            if h and self.kinds[i] == "name": raise Cannot("sign of a square root")
            r += h * B ** i
            if o: odd.append(({B ** i: Fr(1)}, "mono"))
        for f, n in fs:
            h, o = divmod(n, 2)
            if h: raise Cannot("sign of a square root")
            if o: odd.append((f, "poly"))
        if not odd and rest == 1: return {r: c0}
        rad = {0: rest}
        for f, _ in odd: rad = self.mulraw(rad, self.clear(f)[0] if _ == "poly" else f)
        key = ("root", frozenset(rad.items()))
        if key not in self.known:
            i = len(self.names)
            self.names.append("r%d" % i); self.defs.append(rad); self.kinds.append("root")
            self.known[key] = i
            self.roots.append(i)
        return {r + B ** self.known[key]: c0}
    def show(self, p, n=4):
        return " + ".join("%s*%s" % (v, "*".join("%s^%d" % (self.names[i], d) for i, d in digits(k))) for k, v in list(p.items())[:n]) + (" + ..." if len(p) > n else "")
    # ---- coefficients: {log index (0 is 1): polynomial}
    def zero(self): return {}
    def rat(self, x):
        p = self.const(x)
        return {0: p} if p else {}
    def cvar(self, n): return {0: self.var(n)}
    def cadd(self, a, b):
        r = dict(a)
        for l, p in b.items():
            p = self.padd(r[l], p) if l in r else p
            if p: r[l] = p
            elif l in r: del r[l]
        return r
    def cmul(self, a, b):
        r = {}
        for l, p in a.items():
            for m, q in b.items():
                if l and m: raise Cannot("product of logarithms")
                r = self.cadd(r, {l or m: self.pmul(p, q)})
        return {l: self.tidy(p) if len(p) > self.many else p for l, p in r.items() if p}
    many = 20
    def only(self, a):
        if set(a) - {0}: raise Cannot("a logarithm in a denominator or an argument")
        return a.get(0, {})
    def cinv(self, a): return {0: self.pinv(self.only(a))}
    def csqrt(self, a): return {0: self.psqrt(self.only(a))}
    def clog(self, a, ab):
        """logarithm of a coefficient (of its absolute value)"""
        p = self.only(a)
        if ab and len(p) == 1 and 0 in p: p = {0: abs(p[0])}
        for s in ((1, -1) if ab else (1,)):
            if self.iszero(self.padd(p, {0: Fr(-s)})): return {}
        for i, (q, ab2) in enumerate(self.logs):
            inv = None
            for s in ((1, -1) if ab or ab2 else (1,)):
                if self.iszero(self.padd(q, self.pscale(p, Fr(-s)))): return {i + 1: {0: Fr(1)}}
                prod = self.padd(self.pmul(q, p), {0: Fr(-s)})
                if self.iszero(prod): return {i + 1: {0: Fr(-1)}}
        for i, (q, ab2) in enumerate(self.logs):
            for x, y, c in ((p, self.pmul(q, q), Fr(2)), (self.pmul(p, p), q, Fr(1, 2))):
                if self.iszero(self.padd(x, self.pscale(y, Fr(-1)))): return {i + 1: {0: c}}
                if self.iszero(self.padd(self.pmul(x, y), {0: Fr(-1)})): return {i + 1: {0: -c}}
        self.logs.append((p, ab))
        return {len(self.logs): {0: Fr(1)}}
    def cabs(self, a):
        p = self.only(a)
        if not p: return {}
        if len(p) == 1:
            (k, v), = p.items()
            if all(self.kinds[i] == "var" for i, d in digits(k)): return {0: {k: abs(v)}}
        raise Cannot("absolute value")
    def czero(self, a): return all(self.iszero(p) for p in a.values())
    def cprune(self, a): return {l: p for l, p in a.items() if not self.iszero(p)}

class Num(object):
    """the same with numbers"""
    def __init__(self, values, dps=120):
        import mpmath
        self.M = mpmath.mp.clone() if hasattr(mpmath.mp, "clone") else mpmath.mp
        self.M.dps = dps
        self.values = {k: self.M.mpmathify(v) if not isinstance(v, Fr) else self.M.mpf(v.numerator) / v.denominator for k, v in values.items()}
        self.tiny = self.M.mpf(10) ** (-dps * 2 // 3)
    def zero(self): return self.M.mpf(0)
    def rat(self, x): x = Fr(x); return self.M.mpf(x.numerator) / x.denominator
    def cvar(self, n): return self.values[n]
    def cadd(self, a, b):
        r = a + b
        return r if abs(r) > self.tiny * (abs(a) + abs(b)) else self.M.mpf(0)
    def cmul(self, a, b): return a * b
    def cinv(self, a):
        if not a: raise Cannot("division by zero")
        return 1 / a
    def csqrt(self, a): return self.M.sqrt(a)
    def clog(self, a, ab):
        if not a: raise Cannot("logarithm of zero")
        if ab: a = abs(a) if not getattr(a, "imag", 0) else self.M.sqrt(a * a)
        return self.M.log(a)
    def cabs(self, a): return abs(a)
    def czero(self, a): return not a
    def cprune(self, a): return a

class Series(object):
    __slots__ = ("c", "prec")
    def __init__(self, c, prec=None): self.c, self.prec = c, prec     # prec: the order that is not known, None when exact

class Expander(object):
    """terms as series in t: `point` gives the variables as (coefficient variable or None, power of t, factor)"""
    def __init__(self, F, point, order, choose=None):
        self.F, self.point, self.order, self.memo, self.choose = F, point, order, {}, choose
    def lead(self, s):
        while s.c:
            v = min(s.c)
            x = self.F.cprune(s.c[v])
            if not self.F.czero(x): return v, x
            del s.c[v]
        raise Cannot("nothing known of the leading term")
    def cut(self, c, prec):
        return Series({k: v for k, v in c.items() if prec is None or k < prec}, prec)
    def add(self, a, b):
        F = self.F
        prec = a.prec if b.prec is None else b.prec if a.prec is None else min(a.prec, b.prec)
        r = dict(a.c)
        for k, v in b.c.items():
            r[k] = F.cadd(r[k], v) if k in r else v
            if not r[k]: del r[k]
        return self.cut(r, prec)
    def low(self, s):
        return min(s.c) if s.c else (s.prec if s.prec is not None else None)
    def mul(self, a, b):
        F = self.F
        la, lb = self.low(a), self.low(b)
        if la is None or lb is None: return Series({})
        prec = None
        for x, l in ((a, lb), (b, la)):
            if x.prec is not None: prec = x.prec + l if prec is None else min(prec, x.prec + l)
        r = {}
        for k, v in a.c.items():
            for l, w in b.c.items():
                if prec is not None and k + l >= prec: continue
                z = F.cmul(v, w)
                r[k + l] = F.cadd(r[k + l], z) if k + l in r else z
        return Series({k: v for k, v in r.items() if v}, prec)
    def scale(self, a, c): return Series({k: self.F.cmul(v, c) for k, v in a.c.items()}, a.prec)
    def shifted(self, a, n): return Series({k + n: v for k, v in a.c.items()}, None if a.prec is None else a.prec + n)
    def num(self, x): x = self.F.rat(x); return Series({0: x} if x else {})
    def unit(self, a):
        """(power, coefficient, the rest divided by the leading term minus one)"""
        v, c = self.lead(a)
        rest = self.scale(self.shifted(Series({k: x for k, x in a.c.items() if k != v}, a.prec), -v), self.F.cinv(c))
        if not rest.c and a.prec is None: return v, c, rest, True
        if rest.prec is None or rest.prec > self.order: rest = self.cut(rest.c, self.order)
        return v, c, rest, False
    def compose(self, x, cs):
        """sum of cs(n) x^n, x without constant term"""
        r, p, n = self.num(cs(0)), self.num(1), 0
        r.prec = None
        if not x.c: return Series(r.c, x.prec)
        l = min(x.c)
        if l <= 0: raise Cannot("not a small quantity")
        while True:
            n += 1
            if x.prec is not None and n * l >= x.prec: break
            p = self.mul(p, x)
            c = cs(n)
            if c: r = self.add(r, self.scale(p, self.F.rat(c)))
            if x.prec is None and n > self.order: raise Cannot("no end")
        return Series({k: v for k, v in r.c.items() if x.prec is None or k < x.prec}, x.prec)
    def inv(self, a):
        v, c, x, exact = self.unit(a)
        ic = self.F.cinv(c)
        if exact: return Series({-v: ic})
        return self.shifted(self.scale(self.compose(x, lambda n: (-1) ** n), ic), -v)
    def power(self, a, n):
        if n < 0: return self.power(self.inv(a), -n)
        r = self.num(1)
        while n:
            if n & 1: r = self.mul(r, a)
            n >>= 1
            if n: a = self.mul(a, a)
        return r
    def sqrt(self, a):
        v, c, x, exact = self.unit(a)
        if v % 2: raise Cannot("a square root of an odd power")
        s = self.F.csqrt(c)
        if exact: return Series({v // 2: s})
        co = [Fr(1)]
        def cs(n):
            while len(co) <= n: co.append(co[-1] * (Fr(1, 2) - (len(co) - 1)) / len(co))
            return co[n]
        return self.shifted(self.scale(self.compose(x, cs), s), v // 2)
    def log(self, a, ab=False):
        v, c, x, exact = self.unit(a)
        if v: raise Cannot("a logarithm of the small quantity")
        l = self.F.clog(c, ab)
        r = Series({0: l} if l else {})
        if exact: return r
        return self.add(r, self.compose(x, lambda n: 0 if n == 0 else Fr((-1) ** (n + 1), n)))
    def go(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev(t)
        return r
    def ev(self, t):
        op, a = t.op, t.a
        if op == "num": return self.num(a[0])
        if op == "var":
            if a[0] not in self.point: raise Cannot("variable " + a[0])
            n, p, f = self.point[a[0]]
            c = self.F.rat(f)
            if n is not None: c = self.F.cmul(c, self.F.cvar(n))
            return Series({p: c})
        if op == "add":
            s = self.go(a[0])
            for x in a[1:]: s = self.add(s, self.go(x))
            return s
        if op == "mul":
            xs = sorted((self.go(x) for x in a), key=lambda s: len(s.c))
            s = xs[0]
            for x in xs[1:]: s = self.mul(s, x)
            return s
        if op == "pow": return self.power(self.go(a[0]), a[1])
        if op == "i2r" and a[0].op == "num": return self.num(a[0].a[0])
        if op == "ite":
            c = self.choose(a[0]) if self.choose else None
            if c is None: raise Cannot("a choice")
            return self.go(a[1] if c else a[2])
        if op == "fn":
            if a[0] == "sqrt": return self.sqrt(self.go(a[1]))
            if a[0] == "log":
                if a[1].op == "fn" and a[1].a[0] == "abs": return self.log(self.go(a[1].a[1]), True)
                return self.log(self.go(a[1]))
            if a[0] == "abs":
                s = self.go(a[1])
                v, c = self.lead(s)
                if len(s.c) == 1 and s.prec is None: return Series({v: self.F.cabs(c)})
                k = self.F.cabs(c)
                if self.F.czero(self.F.cadd(k, self.F.cmul(self.F.rat(-1), c))): return s
                return self.scale(s, self.F.rat(-1))
            if a[0] == "powr" and a[2].op == "num" and (2 * a[2].a[0]).denominator == 1: return self.power(self.sqrt(self.go(a[1])), int(2 * a[2].a[0]))
        raise Cannot("%s %s" % (op, a[0] if a and isinstance(a[0], str) else ""))

# ------------------------------------------------------------------ decisions
def points(a, b, point):
    """all variables of the two terms, those not in the point standing for themselves"""
    pt = {}
    for t in (a, b):
        for v in t.fv: pt[v.a[0]] = (v.a[0], 0, 1)
    pt.update(point)
    return pt

def chooser(facts):
    import solve
    memo = {}
    def ch(c):
        if c not in memo: memo[c] = True if solve.entails(list(facts), c, 3000) else False if solve.entails(list(facts), tm.not_(c), 3000) else None
        return memo[c]
    return ch

def fits(facts, vals):
    env = {n: float(v) for n, v in vals.items()}
    for f in facts:
        try:
            if not tm.evaluate(f, env): return False
        except Exception: pass
    return True

def decide(a, b, by, facts, seed=1):
    """(status, why): whether the terms of a - b before the power `upto` of the small quantity all vanish"""
    import random
    point, upto, order = by
    pt = points(a, b, point)
    names = sorted(set(n for n, _, _ in pt.values() if n is not None))
    ch = chooser(facts)
    def diff(F):
        X = Expander(F, pt, order, ch)
        x, y = X.go(a), X.go(b)
        for s in (x, y):
            if s.prec is not None and s.prec < upto: raise Cannot("expansion known before the power %d only" % s.prec)
        d = X.add(x, X.scale(y, F.rat(-1)))
        return x, y, {k: v for k, v in d.c.items() if k < upto}
    rng = random.Random(seed)
    bad = None
    try:
        for _ in range(200):
            vals = {n: Fr(rng.randint(400, 600), 997) for n in names}
            if "pi" in vals: vals["pi"] = Fr(3141592653589793, 10 ** 15)
            if "q" in vals: vals["q"] = Fr(rng.randint(700, 900), 991)
            if fits(facts, vals): break
        else: raise Cannot("no point")
        x, y, d = diff(Num(vals))
        for k in sorted(d):
            if d[k]:
                F = Num({})
                size = max([abs(v) for v in x.c.values()] + [abs(v) for v in y.c.values()])
                if abs(d[k]) > F.M.mpf(10) ** -25 * size:
                    bad = "the coefficients of the power %d differ: %s and %s at %s" % (k, F.M.nstr(x.c.get(k, F.zero()), 12), F.M.nstr(y.c.get(k, F.zero()), 12), {n: str(v) for n, v in vals.items()})
                    break
    except Cannot: pass
    if bad: return "refuted", bad
    try:
        F = Sym(names)
        x, y, d = diff(F)
        for k in sorted(d):
            if not F.czero(d[k]): return "undecided", "the coefficients of the power %d are not shown equal" % k
    except Cannot as e: return "undecided", "algebra: %s" % e
    return "proved", "%d powers" % len([k for k in set(x.c) | set(y.c) if k < upto])

def truncated(b, vals, point, upto, order):
    """(value of the terms of b before the power `upto`, size of the largest of them, size of the next ones) as floats"""
    pt = points(b, b, point)
    small = [(v, n, p, f) for v, (n, p, f) in point.items() if p]
    v, n, p, f = small[0]
    F = Num({k: x for k, x in vals.items()} | {"pi": 0}, dps=60)
    F.values["pi"] = F.M.pi
    t = F.M.mpf(vals[v]) / (F.rat(f) * (F.values[n] if n is not None else 1))
    if p == -1: t = 1 / t
    X = Expander(F, pt, order, lambda c: bool(tm.evaluate(c, vals)))
    s = X.go(b)
    ts = {k: c * t ** k for k, c in s.c.items()}
    used = [x for k, x in ts.items() if k < upto]
    rest = [x for k, x in ts.items() if k >= upto]
    return float(sum(used)), float(max(abs(x) for x in used)), float(max([abs(x) for x in rest] + [0]))
