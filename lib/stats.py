"""Tail probabilities used by the distribution oracles."""
import math


def chi2_sf(x, df):
    """P(X >= x) for a chi-square variable."""
    if x <= 0:
        return 1.0
    a, x = df / 2.0, x / 2.0
    lg = math.lgamma(a)
    if x < a + 1:
        s = t = 1.0 / a
        n = a
        for _ in range(100000):
            n += 1
            t *= x / n
            s += t
            if t < s * 1e-16:
                break
        return max(0.0, 1.0 - s * math.exp(-x + a * math.log(x) - lg))
    b = x + 1 - a
    c = 1e300
    d = 1.0 / b
    h = d
    for i in range(1, 100000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        d = 1e-300 if abs(d) < 1e-300 else d
        c = b + an / c
        c = 1e-300 if abs(c) < 1e-300 else c
        d = 1.0 / d
        e = d * c
        h *= e
        if abs(e - 1) < 1e-15:
            break
    v = -x + a * math.log(x) - lg
    return math.exp(v) * h if v > -700 else 0.0


def poisson_sf(k, lam):
    """P(X >= k)."""
    if k <= 0:
        return 1.0
    if lam <= 0:
        return 0.0
    # sum upwards from k
    lt = -lam + k * math.log(lam) - math.lgamma(k + 1)
    t, s, i = 1.0, 1.0, k
    while True:
        i += 1
        t *= lam / i
        s += t
        if t < s * 1e-15 or i > k + 100000:
            break
    return min(1.0, math.exp(lt) * s) if lt > -700 else 0.0


def binom_p(k, n, p):
    """Two-sided normal approximation."""
    if n == 0:
        return 1.0
    sd = math.sqrt(n * p * (1 - p))
    return math.erfc(max(0.0, abs(k - n * p) - 0.5) / sd / math.sqrt(2))
