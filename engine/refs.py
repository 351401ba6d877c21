"""Independent reference implementations of the mathematical functions the contracts name."""
import math
from functools import lru_cache

@lru_cache(maxsize=None)
def leggauss(n):
    """nodes in increasing order and weights of the Gauss-Legendre rule on [-1,1]"""
    xs, ws = [], []
    for i in range(n):
        z = math.cos(math.pi * (n - i - 0.25) / (n + 0.5))
        for _ in range(100):
            p1, p2 = 1.0, 0.0
            for j in range(n): p1, p2 = ((2 * j + 1) * z * p1 - j * p2) / (j + 1), p1
            pp = n * (z * p1 - p2) / (z * z - 1)
            dz = p1 / pp
            z -= dz
            if abs(dz) < 1e-15: break
        p1, p2 = 1.0, 0.0
        for j in range(n): p1, p2 = ((2 * j + 1) * z * p1 - j * p2) / (j + 1), p1
        pp = n * (z * p1 - p2) / (z * z - 1)
        xs.append(z); ws.append(2 / ((1 - z * z) * pp * pp))
    return xs, ws
def GLx(lo, hi, n, i):
    n, i = int(n), int(i)
    if n <= 0 or not 0 <= i < n: return float("nan")
    lo, hi = float(lo), float(hi)
    return (hi + lo) / 2 + (hi - lo) / 2 * leggauss(n)[0][i]
def GLw(lo, hi, n, i):
    n, i = int(n), int(i)
    if n <= 0 or not 0 <= i < n: return float("nan")
    return (float(hi) - float(lo)) / 2 * leggauss(n)[1][i]

def bracket(x, k):
    """ind with k[ind] <= x < k[ind+1], at most len-2"""
    lo, hi = 0, len(k) - 1
    while hi - lo > 1:
        m = (lo + hi) // 2
        if x < k[m]: hi = m
        else: lo = m
    return lo
def slope(k, p, rng):
    s, n = 0.0, 0
    for i in rng:
        if p[i + 1] <= 0 or p[i - 1] <= 0: return None
        s += math.log(p[i + 1] / p[i - 1]) / math.log(k[i + 1] / k[i - 1])
        n += 1
    return s / n
def lookup(x, interpol, k, p):
    x = float(x)
    n = len(k)
    if x < k[0]:
        s = slope(k, p, range(1, min(15, n - 1)))
        return 0.0 if s is None else p[1] * (x / k[1]) ** s
    if x > k[-1]:
        s = slope(k, p, range(max(1, n - 1 - 15), n - 1))
        return 0.0 if s is None else p[-1] * (x / k[-1]) ** s
    i = bracket(x, k)
    if int(interpol) == 0:
        return p[i] + (p[i + 1] - p[i]) * (x - k[i]) / (k[i + 1] - k[i])
    a, b = max(0, i - 2), min(n - 1, i + 2)
    s = 0.0
    for u in range(a, b + 1):
        l = 1.0
        for v in range(a, b + 1):
            if v != u: l *= (x - k[v]) / (k[u] - k[v])
        s += p[u] * l
    return s
def sigmad2(kk, uv, k, p):
    x = float(kk) * float(uv)
    if x < k[0]: return 0.0
    s = 0.0
    for i in range(len(k) - 1):
        if x < k[i + 1]:
            px = p[i] + (p[i + 1] - p[i]) * (x - k[i]) / (k[i + 1] - k[i])
            s += (px + p[i]) * (x - k[i])
            break
        s += (p[i + 1] + p[i]) * (k[i + 1] - k[i])
    return s / (12 * math.pi ** 2)

_SG = (0.8191725133961645, 0.6710436067037893, 0.5497004779019703, 0.4503005, 0.3688711, 0.3021653, 0.2475234, 0.2027624)
def suave_x(n, d):
    """points of the stand-in integrator (native/stub.c)"""
    v = 0.5 + (int(n) + 1) * _SG[int(d)]
    return v - int(v)
