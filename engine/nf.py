"""Normal forms: rational functions over atoms, with the algebra of sqrt, |.|, log, exp, sin/cos and finite sums.

A value is a Rat: numerator polynomial (dict packed monomial -> int) / (int * product of interned factors).
Monomials are packed ints of signed 24-bit fields (negative exponents allowed: variables are non-zero
wherever they divide).  Equality is decided by cross-multiplying and testing the numerator for zero; atoms
are interned up to exact equality of their arguments (a modular fingerprint only preselects candidates).
"""
import math, random
from fractions import Fraction
import terms as tm
from terms import T

W = 24
HALF = 1 << (W - 1)
MASK = (1 << W) - 1
P = (1 << 61) - 1
EXPL = 24

class TooBig(Exception): pass
class NFError(Exception): pass

class Rat(object):
    __slots__ = ("n", "c", "d", "_fp", "_fv")
    def __init__(self, n, c=1, d=()):
        self.n, self.c, self.d = n, c, d
        self._fp = None
        self._fv = None

class Atom(object):
    __slots__ = ("i", "kind", "name", "args", "fv", "red", "val", "pos", "extra", "nonneg")

class Ctx(object):
    LIMIT = 400000
    def __init__(self, pos=(), seed=12345):
        self.atoms = []
        self.bias = 0
        self.idx = {}
        self.factors = []          # (poly, fp, fv)
        self.fidx = {}
        self.pos = set(pos)        # T terms (vars / sels) known to be > 0, or a callable
        self.posfun = None
        self.rng = random.Random(seed)
        self.memo = {}
        self.redset = set()
        self.zero = Rat({}, 1)
        self.one = Rat({0: 1}, 1)
        self.ite_split = None
        self.bdepth = 0
        self.sum_hook = None
        self.budget = None
        self.opaque_inv = False

    # ---------------------------------------------------------------- atoms
    def new_atom(self, kind, name, args=(), fv=tm.EMPTY, pos=False, extra=None, nonneg=False):
        a = Atom()
        a.i = len(self.atoms)
        a.kind, a.name, a.args, a.fv, a.pos, a.extra = kind, name, args, fv, pos, extra
        a.nonneg = nonneg or pos
        a.red = None
        a.val = self.rng.randrange(2, P - 1)
        self.atoms.append(a)
        self.bias |= HALF << (W * a.i)
        return a
    def am(self, a, e=1): return e << (W * a.i)
    def rat_atom(self, a, e=1):
        r = Rat({self.am(a, e): 1}, 1)
        if a.red is not None and e not in (0, 1): r = self.reduce(r)
        return r
    def fields(self, m):
        """{atom index: exponent}"""
        out = {}
        x = m + self.bias
        i = 0
        while x:
            e = (x & MASK) - HALF
            if e: out[i] = e
            x >>= W
            i += 1
            if i >= len(self.atoms): break
        return out

    # ---------------------------------------------------------------- arithmetic
    def const(self, q):
        q = Fraction(q)
        if q == 0: return self.zero
        return Rat({0: q.numerator}, q.denominator)
    def isconst(self, r):
        if r.d: return None
        if not r.n: return Fraction(0)
        if len(r.n) == 1 and 0 in r.n: return Fraction(r.n[0], r.c)
        return None
    def norm(self, n, c, d):
        if not n: return self.zero
        if c != 1:
            g = c
            for v in n.values():
                g = math.gcd(g, v)
                if g == 1: break
            if g != 1:
                n = {m: v // g for m, v in n.items()}
                c //= g
        return Rat(n, c, d)
    def pmul(self, a, b):
        if len(a) > len(b): a, b = b, a
        if len(a) * len(b) > 40 * self.LIMIT: raise TooBig()
        if len(a) == 1:
            (m1, v1), = a.items()
            if m1 == 0: return {m: v * v1 for m, v in b.items()} if v1 != 1 else b
            return {m + m1: v * v1 for m, v in b.items()}
        out = {}
        get = out.get
        for m1, v1 in a.items():
            for m2, v2 in b.items():
                m = m1 + m2
                out[m] = get(m, 0) + v1 * v2
        if len(out) > self.LIMIT: raise TooBig()
        return {m: v for m, v in out.items() if v}
    def addpoly(self, a, ca, b, cb):
        """a*ca + b*cb"""
        out = dict(a) if ca == 1 else {m: v * ca for m, v in a.items()}
        for m, v in b.items():
            w = out.get(m, 0) + v * cb
            if w: out[m] = w
            else: out.pop(m, None)
        return out
    def add(self, x, y):
        if not x.n: return y
        if not y.n: return x
        if x.d == y.d:
            d = x.d; xn, yn = x.n, y.n
        else:
            dx, dy = dict(x.d), dict(y.d)
            xn, yn = x.n, y.n
            d = dict(dx)
            for f, e in dy.items():
                if e > d.get(f, 0): d[f] = e
            for f, e in d.items():
                ex, ey = dx.get(f, 0), dy.get(f, 0)
                for _ in range(e - ex): xn = self.pmul(xn, self.factors[f][0])
                for _ in range(e - ey): yn = self.pmul(yn, self.factors[f][0])
            d = tuple(sorted(d.items()))
            xn_r = self.reduce_poly(xn); yn_r = self.reduce_poly(yn)
            if xn_r is not None or yn_r is not None:
                x2 = self.divf(xn_r if xn_r is not None else Rat(xn), x.c, d)
                y2 = self.divf(yn_r if yn_r is not None else Rat(yn), y.c, d)
                if x2.d == y2.d: return self.add(x2, y2)
                # reduction introduced further factors: finish naively
                return self.add_plain(x2, y2)
        g = math.gcd(x.c, y.c)
        c = x.c // g * y.c
        n = self.addpoly(xn, c // x.c, yn, c // y.c)
        return self.norm(n, c, d)
    def add_plain(self, x, y):
        dx, dy = dict(x.d), dict(y.d)
        xn, yn = x.n, y.n
        d = dict(dx)
        for f, e in dy.items():
            if e > d.get(f, 0): d[f] = e
        for f, e in d.items():
            for _ in range(e - dx.get(f, 0)): xn = self.pmul(xn, self.factors[f][0])
            for _ in range(e - dy.get(f, 0)): yn = self.pmul(yn, self.factors[f][0])
        g = math.gcd(x.c, y.c)
        c = x.c // g * y.c
        return self.norm(self.addpoly(xn, c // x.c, yn, c // y.c), c, tuple(sorted(d.items())))
    def divf(self, r, c, d):
        """r / (c * prod d)"""
        if not d: return self.norm(r.n, r.c * c, r.d)
        dd = dict(r.d)
        for f, e in d: dd[f] = dd.get(f, 0) + e
        return self.norm(r.n, r.c * c, tuple(sorted(dd.items())))
    def mul(self, x, y):
        if not x.n or not y.n: return self.zero
        if x is self.one: return y
        if y is self.one: return x
        n = self.pmul(x.n, y.n)
        if x.d and y.d:
            d = dict(x.d)
            for f, e in y.d: d[f] = d.get(f, 0) + e
            d = tuple(sorted(d.items()))
        else: d = x.d or y.d
        r = self.reduce_poly(n) if self.redset else None
        if r is not None: return self.divf(r, x.c * y.c, d)
        return self.norm(n, x.c * y.c, d)
    def sub(self, x, y): return self.add(x, self.scale(y, -1))
    def scale(self, x, q):
        q = Fraction(q)
        if q == 0: return self.zero
        return self.norm({m: v * q.numerator for m, v in x.n.items()}, x.c * q.denominator, x.d)
    def power(self, x, e):
        if e == 0: return self.one
        if e < 0: return self.power(self.inv(x), -e)
        if len(x.n) == 1 and not x.d:
            (m, v), = x.n.items()
            r = Rat({m * e: v ** e}, x.c ** e)
            return self.reduce(r)
        if self.opaque_inv and len(x.n) > 2 and e > 2:
            m0, cont, prim = self.content(x.n)
            if self.pfp(prim) > P // 2: prim, cont = {m: -v for m, v in prim.items()}, -cont
            r = self.mul(self.reduce(self.norm({m0 * e: cont ** e}, x.c ** e, ())), self.rat_atom(self.intern("base", "base", (Rat(prim, 1),)), e))
            return self.divf(r, 1, tuple((f, k * e) for f, k in x.d))
        r = None
        while e:
            if e & 1: r = x if r is None else self.mul(r, x)
            e >>= 1
            if e: x = self.mul(x, x)
        return r
    def inv(self, x):
        if not x.n: raise NFError("division by zero")
        if self.opaque_inv:
            # 1/x as an unknown of its own, one for all equal x (up to a monomial factor)
            m0, cont, prim = self.content(x.n)
            if len(prim) > 1:
                sgn = 1 if cont > 0 else -1
                # the sign convention of content() depends on the order of the atoms: make it that of the fingerprint
                fp = self.pfp(prim)
                if fp > P // 2: prim, sgn = {m: -v for m, v in prim.items()}, -sgn
                r = self.mul(self.reduce(self.norm({-m0: x.c * sgn}, abs(cont), ())), self.rat_atom(self.intern("inv", "inv", (Rat(prim, 1),))))
                for f, e in x.d:
                    for _ in range(e): r = self.mulf(r, f)
                return r
        num = {0: x.c}
        d = {}
        m0, cont, facs = self.split_factors(x.n)
        # x.n = cont * m0 * prod facs
        for f, e in facs: d[f] = d.get(f, 0) + e
        sgn = 1 if cont > 0 else -1
        r = Rat({-m0: x.c * sgn}, abs(cont), tuple(sorted(d.items())))
        r = self.norm(r.n, r.c, r.d)
        r = self.reduce(r)
        for f, e in x.d:
            for _ in range(e):
                r = self.mulf(r, f)
        return r
    def mulf(self, r, f):
        dd = dict(r.d)
        if dd.get(f, 0) > 0:
            dd[f] -= 1
            if not dd[f]: del dd[f]
            return Rat(r.n, r.c, tuple(sorted(dd.items())))
        return self.mul(r, Rat(self.factors[f][0], 1))

    # ---------------------------------------------------------------- factors
    def content(self, n):
        """(monomial, int content with the sign of the canonical leading term, primitive poly)"""
        g = 0
        for v in n.values():
            g = math.gcd(g, v)
            if g == 1: break
        if len(n) == 1:
            (m, v), = n.items()
            return m, v, {0: 1}
        fl = [self.fields(m) for m in n]
        idxs = set()
        for f in fl: idxs.update(f)
        m0 = 0
        for i in idxs:
            lo = min(f.get(i, 0) for f in fl)
            if lo: m0 += lo << (W * i)
        # canonical sign: by the modular values of the monomials, independent of packing order
        lead = max(n, key=lambda m: (m - m0 + self.bias))
        s = 1 if n[lead] > 0 else -1
        g *= s
        prim = {m - m0: v // g for m, v in n.items()} if (m0 or g != 1) else n
        return m0, g, prim
    def split_factors(self, n):
        m0, cont, prim = self.content(n)
        if len(prim) == 1: return m0, cont, []
        facs = self.factorize(prim)
        return m0, cont, facs
    def factorize(self, prim):
        key = frozenset(prim.items())
        r = self.fidx.get(key)
        if r is not None: return r
        out = None
        if len(prim) <= 80:
            out = self.sympy_factor(prim)
        if out is None: out = [(prim, 1)]
        res = []
        for p, e in out:
            k = frozenset(p.items())
            fi = self.fidx.get(("f", k))
            if fi is None:
                fi = len(self.factors)
                fv = tm.EMPTY
                for m in p:
                    for i in self.fields(m): fv = fv | self.atoms[i].fv
                self.factors.append((p, self.pfp(p), fv))
                self.fidx[("f", k)] = fi
            res.append((fi, e))
        self.fidx[key] = res
        return res
    def sympy_factor(self, prim):
        fl = {m: self.fields(m) for m in prim}
        idxs = sorted(set(i for f in fl.values() for i in f))
        deg = max(sum(f.values()) for f in fl.values())
        if len(idxs) > 8 or deg > 16 or deg < 2: return None
        if len(prim) < 3 and deg < 2: return None
        from sympy.polys import ring, QQ, ZZ
        R = ring(["a%d" % i for i in idxs], ZZ)[0]
        p = R.from_dict({tuple(f.get(i, 0) for i in idxs): prim[m] for m, f in fl.items()})
        try:
            c, fs = p.factor_list()
        except Exception:
            return None
        out = []
        sgn = int(c)
        for q, e in fs:
            d = {}
            for mon, co in q.terms():
                m = 0
                for i, x in zip(idxs, mon): m += x << (W * i)
                d[m] = int(co)
            m0, g, pr = self.content(d)
            if m0: return None
            sgn *= g ** e
            out.append((pr, e))
        if sgn != 1: return None
        return out

    # ---------------------------------------------------------------- reductions s^2 -> value
    def set_red(self, a, rat):
        a.red = rat
        self.redset.add(a.i)
    def reduce(self, r):
        q = self.reduce_poly(r.n) if self.redset else None
        if q is None: return r
        return self.divf(q, r.c, r.d)
    def reduce_poly(self, n):
        """None when nothing to do, else a Rat equal to the polynomial"""
        todo = None
        for m in n:
            x = m + self.bias
            for i in self.redset:
                e = ((x >> (W * i)) & MASK) - HALF
                if e > 1 or e < 0:
                    todo = i; break
            if todo is not None: break
        if todo is None: return None
        i = todo
        groups = {}
        for m, v in n.items():
            e = (((m + self.bias) >> (W * i)) & MASK) - HALF
            a = e >> 1
            groups.setdefault(a, {})[m - ((2 * a) << (W * i))] = v
        red = self.atoms[i].red
        tot = None
        for a, g in sorted(groups.items()):
            part = self.reduce(Rat(g, 1))
            if a: part = self.mul(part, self.power(red, a))
            tot = part if tot is None else self.add(tot, part)
        return tot

    # ---------------------------------------------------------------- fingerprints
    def mfp(self, m):
        v = 1
        for i, e in self.fields(m).items():
            a = self.atoms[i].val
            v = v * pow(a, e if e > 0 else (P - 1 + e), P) % P
        return v
    def pfp(self, n):
        s = 0
        for m, c in n.items(): s = (s + c * self.mfp(m)) % P
        return s
    def fp(self, r):
        if r._fp is None:
            v = self.pfp(r.n)
            den = r.c % P
            for f, e in r.d: den = den * pow(self.factors[f][1], e, P) % P
            r._fp = v * pow(den, P - 2, P) % P
        return r._fp
    def fv(self, r):
        if r._fv is None:
            s = tm.EMPTY
            seen = set()
            for m in r.n:
                for i in self.fields(m):
                    if i not in seen:
                        seen.add(i); s = s | self.atoms[i].fv
            for f, e in r.d: s = s | self.factors[f][2]
            r._fv = s
        return r._fv
    def iszero(self, r): return not r.n
    def equal(self, x, y):
        if x is y: return True
        if self.fp(x) != self.fp(y): return False
        return self.iszero(self.sub(x, y))

    # ---------------------------------------------------------------- interned functions
    def intern(self, kind, name, args, fv=None, **kw):
        fps = tuple(self.fp(a) for a in args)
        key = (kind, name, fps)
        lst = self.idx.setdefault(key, [])
        for a in lst:
            if all(self.equal(x, y) for x, y in zip(a.args, args)): return a
        if fv is None:
            fv = tm.EMPTY
            for x in args: fv = fv | self.fv(x)
        a = self.new_atom(kind, name, tuple(args), fv, **kw)
        lst.append(a)
        return a

    def is_pos_mono(self, m):
        return all(self.atoms[i].pos or e % 2 == 0 for i, e in self.fields(m).items())
    def factor_pos(self, fi):
        """is this factor known positive?  (all coefficients positive over positive atoms, or the hook says so)"""
        p = self.factors[fi][0]
        if all(v > 0 for v in p.values()) and all(self.is_pos_mono(m) for m in p): return 1
        if all(v < 0 for v in p.values()) and all(self.is_pos_mono(m) for m in p): return -1
        if self.posfun is not None:
            return self.posfun(self, fi)
        return 0
    def absf(self, fi):
        """Rat of |factor|"""
        s = self.factor_pos(fi)
        base = Rat(self.factors[fi][0], 1)
        if s == 1: return base
        if s == -1: return self.scale(base, -1)
        a = self.intern("abs", "abs", (base,), nonneg=True)
        if a.red is None: self.set_red(a, self.mul(base, base))
        return self.rat_atom(a)
    def absmono(self, m):
        """|monomial| as Rat"""
        out = self.one
        for i, e in self.fields(m).items():
            a = self.atoms[i]
            if a.nonneg or e % 2 == 0: out = self.mul(out, self.rat_atom(a, e))
            else:
                b = self.intern("abs", "abs", (self.rat_atom(a),), nonneg=True)
                if b.red is None: self.set_red(b, self.power(self.rat_atom(a), 2))
                out = self.mul(out, self.rat_atom(b, e))
        return out
    def f_abs(self, r):
        if not r.n: return r
        m0, cont, facs = self.split_factors(r.n)
        out = self.mul(self.const(Fraction(abs(cont), r.c)), self.absmono(m0))
        for f, e in facs: out = self.mul(out, self.power(self.absf(f), e))
        for f, e in r.d: out = self.mul(out, self.power(self.inv(self.absf(f)), e))
        return out
    def f_sqrt(self, r):
        if not r.n: return r
        m0, cont, facs = self.split_factors(r.n)
        out = self.one
        inner = self.one
        # rational part
        q = Fraction(cont, r.c)
        num, den = q.numerator * q.denominator, q.denominator
        sq, rest = _sqpart(abs(num))
        out = self.const(Fraction(sq, den))
        restc = rest * (1 if num > 0 else -1)
        rest = Rat({0: restc}, 1)
        facs = [(self._frat(f), e) for f, e in facs] + [(self._frat(f), -e) for f, e in r.d]
        ml = [(self.rat_atom(self.atoms[i]), e) for i, e in self.fields(m0).items()]
        for b, e in ml + facs:
            h = e // 2 if e % 2 == 0 else (e - 1) // 2
            if h: out = self.mul(out, self.power(self.f_abs(b) if h % 2 else b, h))
            if e % 2: rest = self.mul(rest, b)
        c = self.isconst(rest)
        if c is not None and c == 1: return out
        a = self.intern("sqrt", "sqrt", (rest,), nonneg=True)
        if a.red is None: self.set_red(a, rest)
        if all(v > 0 for v in rest.n.values()) and all(self.is_pos_mono(m) for m in rest.n): a.pos = True
        return self.mul(out, self.rat_atom(a))
    def _frat(self, f): return Rat(self.factors[f][0], 1)
    def f_log(self, r):
        """log|r|"""
        if not r.n: raise NFError("log of zero")
        m0, cont, facs = self.split_factors(r.n)
        out = self.logint(abs(cont))
        out = self.sub(out, self.logint(r.c))
        for i, e in self.fields(m0).items():
            out = self.add(out, self.scale(self.logatom(self.atoms[i]), e))
        for f, e in facs: out = self.add(out, self.scale(self.logfac(f), e))
        for f, e in r.d: out = self.sub(out, self.scale(self.logfac(f), e))
        return out
    def logint(self, n):
        if n == 1: return self.zero
        out = self.zero
        p = 2
        m = n
        while p * p <= m and p < 100000:
            e = 0
            while m % p == 0: m //= p; e += 1
            if e: out = self.add(out, Rat({self.am(self.intern("log", "log", (self.const(p),))): e}, 1))
            p += 1
        if m > 1: out = self.add(out, self.rat_atom(self.intern("log", "log", (self.const(m),))))
        return out
    def logatom(self, a):
        if a.kind == "abs": return self.f_log(a.args[0])
        if a.kind == "sqrt": return self.scale(self.f_log(a.args[0]), Fraction(1, 2))
        if a.kind == "exp": return self.scale(a.args[0], Fraction(1, EXPL) if a.extra else 1)
        return self.rat_atom(self.intern("log", "log", (self.rat_atom(a),)))
    def logfac(self, f): return self.rat_atom(self.intern("log", "log", (self._frat(f),)))
    def f_exp(self, r):
        if not r.n: return self.one
        if r.d:
            # one atom, canonical sign
            m0, g, prim = self.content(r.n)
            s = 1 if g > 0 else -1
            rr = r if s == 1 else self.scale(r, -1)
            a = self.intern("exp", "exp", (rr,), pos=True)
            return self.rat_atom(a, s)
        out = self.one
        for m, v in r.n.items():
            q = Fraction(v, r.c)
            fl = self.fields(m)
            if len(fl) == 1:
                (i, e), = fl.items()
                a = self.atoms[i]
                if e == 1 and a.kind == "log" and q.denominator <= 2:
                    base = a.args[0]
                    b = self.f_abs(base)
                    if q.denominator == 1: out = self.mul(out, self.power(b, q.numerator)); continue
                    out = self.mul(out, self.power(self.f_sqrt(b), q.numerator)); continue
            k = q * EXPL
            if k.denominator == 1:
                a = self.intern("exp", "exp", (Rat({m: 1}, 1),), pos=True, extra=True)
                out = self.mul(out, self.rat_atom(a, k.numerator))
            else:
                s = 1 if q > 0 else -1
                a = self.intern("exp", "exp", (Rat({m: abs(v)}, r.c),), pos=True)
                out = self.mul(out, self.rat_atom(a, s))
        return out
    def f_trig(self, name, r):
        if not r.n: return self.zero if name == "sin" else self.one
        m0, g, prim = self.content(r.n)
        s = 1 if g > 0 else -1
        if s < 0: r = self.scale(r, -1)
        a = self.intern("fn", name, (r,))
        if name == "sin":
            if a.red is None:
                c = self.intern("fn", "cos", (r,))
                self.set_red(a, self.sub(self.one, self.rat_atom(c, 2)))
            return self.scale(self.rat_atom(a), s)
        return self.rat_atom(a)

    # ---------------------------------------------------------------- terms
    def nf(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._nf(t)
            self.memo[t] = r
        return r
    def is_pos_term(self, t):
        if t in self.pos: return True
        if t is tm.PI: return True
        if t.op == "sel" and t.a[0] in self.pos: return True
        return False
    def _nf(self, t):
        op, a = t.op, t.a
        if op == "num": return self.const(a[0])
        if op == "var":
            k = ("var", t)
            x = self.idx.get(k)
            if x is None:
                x = self.new_atom("var", t.a[0], (), frozenset((t,)), pos=self.is_pos_term(t), extra=t)
                self.idx[k] = x
            return self.rat_atom(x)
        if op == "add":
            xs = [self.nf(x) for x in a]
            # group equal denominators first
            g = {}
            for x in xs: g.setdefault(x.d, []).append(x)
            out = None
            for d, l in g.items():
                if len(l) == 1: s = l[0]
                else:
                    c = 1
                    for x in l: c = c // math.gcd(c, x.c) * x.c
                    n = {}
                    for x in l:
                        k = c // x.c
                        for m, v in x.n.items(): n[m] = n.get(m, 0) + v * k
                    s = self.norm({m: v for m, v in n.items() if v}, c, d)
                out = s if out is None else self.add(out, s)
            return out
        if op == "mul":
            xs = sorted((self.nf(x) for x in a), key=lambda r: len(r.n))
            out = xs[0]
            for x in xs[1:]: out = self.mul(out, x)
            return out
        if op == "pow": return self.power(self.nf(a[0]), a[1])
        if op == "i2r": return self.nf(a[0])
        if op == "fn":
            name = a[0]
            if name == "powr":
                y, x = self.nf(a[2]), self.nf(a[1])
                q = self.isconst(y)
                if q is not None and q.denominator == 1: return self.power(x, q.numerator)
                return self.f_exp(self.mul(y, self.f_log(x)))
            args = [self.nf(x) for x in a[1:]]
            if name == "log": return self.f_log(args[0])
            if name == "exp": return self.f_exp(args[0])
            if name == "sqrt": return self.f_sqrt(args[0])
            if name == "abs": return self.f_abs(args[0])
            if name in ("sin", "cos"): return self.f_trig(name, args[0])
            return self.rat_atom(self.intern("fn", name, args))
        if op == "ifn": return self.rat_atom(self.intern("ifn", a[0], [self.nf(x) for x in a[1:]]))
        if op == "imod" and a[1].op == "num" and a[1].a[0] > 0: return self.nf(tm.sub(a[0], tm.mul(a[1], tm.idiv(a[0], a[1]))))
        if op in ("idiv", "imod"): return self.rat_atom(self.intern(op, op, [self.nf(x) for x in a]))
        if op == "sel":
            akey, aargs = self.arrkey(a[0])
            i = self.nf(a[1])
            x = self.intern("sel", akey, [i] + aargs, pos=self.is_pos_term(t),
                            fv=a[0].fv | self.fv(i))
            return self.rat_atom(x)
        if op == "ite":
            ck, cargs = self.condkey(a[0])
            x, y = self.nf(a[1]), self.nf(a[2])
            if self.equal(x, y): return x
            fv = a[0].fv | self.fv(x) | self.fv(y)
            z = self.intern("ite", ck, cargs + [x, y], fv=fv)
            if z.extra is None: z.extra = t
            return self.rat_atom(z)
        if op == "sum": return self.nf_sum(t)
        raise NFError("nf " + op)
    def arrkey(self, arr):
        if arr.op == "var": return ("av", arr), []
        if arr.op == "lam":
            b = self.binder(arr)
            body = self.nf(tm.subst(arr.a[1], {arr.a[0]: b}))
            return ("lam", b), [body]
        return ("arr", arr), []
    def binder(self, t):
        """level-indexed bound variable: one more than the deepest one free in t"""
        d = -1
        for v in t.fv:
            n = v.a[0]
            if n[0] == "@": d = max(d, int(n[1:]))
        return tm.var("@%d" % (d + 1), "I")
    def condkey(self, c):
        """canonical key + Rat arguments of a condition"""
        op, a = c.op, c.a
        if op in ("true", "false"): return op, []
        if op == "not":
            k, r = self.condkey(a[0]); return ("not", k), r
        if op in ("and", "or"):
            ks, rs = [], []
            parts = []
            for x in a:
                k, r = self.condkey(x)
                parts.append((repr(k), tuple(self.fp(y) for y in r), k, r))
            parts.sort(key=lambda p: (p[0], p[1]))
            for p in parts: ks.append(p[2]); rs += p[3]
            return (op, tuple(ks)), rs
        if op == "lt":
            d = self.sub(self.nf(a[1]), self.nf(a[0]))
            d = self._posscale(d)
            return ("lt", a[0].s), [d]
        if op == "eq":
            d = self.sub(self.nf(a[0]), self.nf(a[1]))
            if d.n:
                m0, g, prim = self.content(d.n)
                d = Rat(prim, 1, ())
            return ("eq", a[0].s), [d]
        if op == "bfn": return ("bfn", a[0]), [self.nf(x) for x in a[1:]]
        if op == "var": return ("bv", c), []
        if op == "ite": raise NFError("boolean ite")
        if op == "all":
            b = self.binder(c)
            k, r = self.condkey(tm.subst(c.a[1], {c.a[0]: b}))
            return ("all", k), r + [self.nf(c.a[2]), self.nf(c.a[3])]
        raise NFError("cond " + op)
    def _posscale(self, d):
        if not d.n: return d
        m0, g, prim = self.content(d.n)
        # divide by the positive content
        n = {m: v // abs(g) for m, v in d.n.items()}
        if m0 and self.is_pos_mono(m0): n = {m - m0: v for m, v in n.items()}
        if d.d:
            keep = []
            for f, e in d.d:
                s = self.factor_pos(f)
                if s == 1 or e % 2 == 0: continue
                keep.append((f, e))
            return Rat(n, 1, tuple(keep))
        return Rat(n, 1)
    def nf_sum(self, t):
        b0, body, lo, hi = t.a
        b = self.binder(t)
        body = self.nf(tm.subst(body, {b0: b}))
        return self.mk_sum(b, body, self.nf(lo), self.nf(hi))
    def mk_sum(self, b, body, lo, hi):
        if not body.n: return self.zero
        fs = frozenset((b,))
        ddep = tuple((f, e) for f, e in body.d if b in self.factors[f][2])
        dind = tuple((f, e) for f, e in body.d if b not in self.factors[f][2])
        groups = {}
        depatom = {}
        for m, v in body.n.items():
            mi, md = 0, 0
            for i, e in self.fields(m).items():
                if i not in depatom: depatom[i] = b in self.atoms[i].fv
                if depatom[i]: md += e << (W * i)
                else: mi += e << (W * i)
            groups.setdefault(mi, {})[md] = v
        out = self.zero
        if not ddep:
            # fully linear: one atom per dependent monomial
            coef = {}
            for mi, g in groups.items():
                for md, v in g.items(): coef.setdefault(md, {})[mi] = v
            for md, cn in coef.items():
                if md == 0:
                    s = self.sub(hi, lo)     # sum of 1 (hi >= lo assumed for loops that run)
                    s = self.rat_atom(self.intern("cnt", "cnt", (lo, hi)))
                else:
                    s = self.rat_atom(self.intern("sum", ("sum", b), (Rat({md: 1}, 1), lo, hi),
                                                  fv=(self.fv(Rat({md: 1}, 1)) - fs) | self.fv(lo) | self.fv(hi)))
                out = self.add(out, self.mul(Rat(cn, 1), s))
        else:
            for mi, g in groups.items():
                m0, cont, prim = self.content(g)
                # m0 may still depend on b: keep it in the body
                inner = self.norm({m + m0: v for m, v in prim.items()}, 1, ddep)
                s = self.rat_atom(self.intern("sum", ("sum", b), (inner, lo, hi),
                                              fv=(self.fv(inner) - fs) | self.fv(lo) | self.fv(hi)))
                out = self.add(out, self.mul(Rat({mi: cont}, 1), s))
        return self.divf(out, body.c, dind)

    # ---------------------------------------------------------------- back to readable text
    def show_poly(self, n, lim=12):
        out = []
        for m, v in list(n.items())[:lim]:
            out.append("%d%s" % (v, "".join("*%s%s" % (self.show_atom(self.atoms[i]), "^%d" % e if e != 1 else "")
                                           for i, e in self.fields(m).items())))
        return " + ".join(out) + (" + ... (%d terms)" % len(n) if len(n) > lim else "")
    def show_atom(self, a):
        if a.kind == "var": return a.name
        if a.kind == "sel": return "%s[%s]" % (a.name[1], self.show(a.args[0], 3))
        return "%s(%s)" % (a.name if isinstance(a.name, str) else a.kind, ", ".join(self.show(x, 4) for x in a.args))
    def show(self, r, lim=12):
        s = self.show_poly(r.n, lim) if r.n else "0"
        if r.c != 1 or r.d:
            s = "(%s)/(%d%s)" % (s, r.c, "".join("*(%s)^%d" % (self.show_poly(self.factors[f][0], 6), e) for f, e in r.d))
        return s

def _sqpart(n):
    sq, rest = 1, 1
    p = 2
    while p * p <= n and p < 20000:
        e = 0
        while n % p == 0: n //= p; e += 1
        sq *= p ** (e // 2)
        if e & 1: rest *= p
        p += 1
    r = math.isqrt(n)
    if r * r == n: sq *= r
    else: rest *= n
    return sq, rest
