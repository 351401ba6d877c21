"""Lemmas about real functions, decided with exact rational arithmetic (polynomials are {power: Fraction})."""
from fractions import Fraction as Fr
import math

def padd(a, b):
    r = dict(a)
    for k, v in b.items(): r[k] = r.get(k, Fr(0)) + v
    return {k: v for k, v in r.items() if v}
def pscale(a, s): return {k: v * s for k, v in a.items()} if s else {}
def psub(a, b): return padd(a, pscale(b, Fr(-1)))
def pmul(a, b):
    r = {}
    for i, u in a.items():
        for j, v in b.items(): r[i + j] = r.get(i + j, Fr(0)) + u * v
    return {k: v for k, v in r.items() if v}
def ppow(a, n):
    r = {0: Fr(1)}
    for _ in range(n): r = pmul(r, a)
    return r
def pcompose(a, b):
    r, pw = {}, {0: Fr(1)}
    for i in range(max(a) + 1):
        if i in a: r = padd(r, pscale(pw, a[i]))
        pw = pmul(pw, b)
    return r
def low(a): return min(a) if a else None
def absmax(a, u):
    """sup of |a| on |x|<=u"""
    return sum(abs(v) * u ** k for k, v in a.items())

def shift(a, n):
    assert all(k >= n for k in a)
    return {k - n: v for k, v in a.items()}

def lower(D, u):
    """lower bound of |D| on |x|<=u, D with non-zero constant term"""
    b = abs(D.get(0, Fr(0))) - sum(abs(v) * u ** k for k, v in D.items() if k)
    assert b > 0
    return b

def series_at_zero_log(P, Q, D, S, u):
    """sup over 0<x<=u of |(P + Q log x)/D - S|; the supremum of x^n |log x| is attained at u when u < exp(-1/n)"""
    N = psub(P, pmul(S, D))
    lim = absmax(N, u)
    n = low(Q)
    if n:
        assert float(u) < math.exp(-1. / n)
        lim += absmax(Q, u) * (Fr(math.ceil(-math.log(u) * 1e6), 10 ** 6) + 1)
    return float(lim / lower(D, u))

def series_log1m(P, Q, D, S, u, order=40):
    """sup over |x|<=u of |(P + Q log(1-x))/D - S|, D may vanish at 0 to some order"""
    L = {k: Fr(-1, k) for k in range(1, order + 1)}
    rem = u ** (order + 1) / ((order + 1) * (1 - u))          # |log(1-x) - L(x)|
    n = low(D)
    N = psub(padd(P, pmul(Q, L)), pmul(S, D))
    # terms below the order of D must cancel exactly
    if low(N) is not None and low(N) < n: return float("inf")
    q = low(Q)
    # the remainder of the logarithm has a zero of order `order+1`
    lim = absmax(shift(N, n), u) + absmax(Q, u) * rem / u ** n
    return float(lim / lower(shift(D, n), u))
