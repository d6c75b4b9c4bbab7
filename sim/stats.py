"""Sound tail bounds and exact-ish tests for the distribution properties."""
import math

import numpy as np
from scipy import stats as ss

ALPHA = 1e-10


class Group:
    """A sum of conditionally Bernoulli variables with known probabilities."""
    __slots__ = ("n", "s", "e", "v")

    def __init__(self):
        self.n, self.s, self.e, self.v = 0, 0.0, 0.0, 0.0

    def add(self, x, p):
        self.n += 1
        self.s += x
        self.e += p
        self.v += p * (1 - p)

    def tail(self):
        """An upper bound on the probability of a deviation this large (Freedman / Bernstein)."""
        x = abs(self.s - self.e)
        if x < 1e-9 * max(1, self.n):
            return 1.0
        t = 2 * math.exp(-x * x / (2 * (self.v + x / 3 + 1e-12)))
        if self.e > 0:      # Chernoff's bound, sharper for rare outcomes
            s = self.s
            t = min(t, 4 * math.exp(-(self.e - s + (s * math.log(s / self.e) if s > 0 else 0.0))))
        return t


def chi2_tail(obs, exp):
    """Chi-square tail; cells with small expectation are pooled."""
    o2, e2, po, pe = [], [], 0.0, 0.0
    for o, e in zip(obs, exp):
        if e < 8:
            po += o
            pe += e
        else:
            o2.append(o)
            e2.append(e)
    if pe > 0:
        if pe >= 8 or not e2:
            o2.append(po)
            e2.append(pe)
        else:
            k = min(range(len(e2)), key=lambda i: e2[i])
            o2[k] += po
            e2[k] += pe
    if len(o2) < 2:
        return 1.0
    x = sum((o - e) ** 2 / e for o, e in zip(o2, e2))
    # small cells have heavier tails than the chi-square distribution: make up for it
    least = min(e2)
    p = float(ss.chi2.sf(x, len(o2) - 1))
    return p ** (0.6 if least < 20 else 0.75 if least < 80 else 0.9 if least < 300 else 1.0)


def multi_tail(obs, probs, total):
    """Chi-square, and an exact binomial tail for every cell (which also judges rare cells)."""
    t = chi2_tail(obs, [p * total for p in probs])
    k = max(1, len(obs))
    for o, p in zip(obs, probs):
        if 0 < p < 1:
            t = min(t, k * 2 * float(min(ss.binom.cdf(o, total, p), ss.binom.sf(o - 1, total, p))))
    return t


def ks_tail(samples, cdf):
    """Kolmogorov-Smirnov by the DKW inequality (always an upper bound)."""
    xs = sorted(samples)
    n = len(xs)
    d = 0.0
    for i, x in enumerate(xs):
        c = cdf(x)
        d = max(d, abs((i + 1) / n - c), abs(c - i / n))
    return 2 * math.exp(-2 * n * d * d), d


def lag_tail(values, prob, most=1200):
    """How often independent draws equal the one some way back, for every distance: the least likely count.
    Only disjoint pairs are counted, so that the counts are binomial."""
    idx = {}
    a = np.array([idx.setdefault(v, len(idx)) for v in values])
    n, best = len(a), (1.0, 0, 0, 0)
    pos = np.arange(n)
    lags = range(1, min(n - 20, most))
    for lag in lags:
        use = (pos[:n - lag] // lag) % 2 == 0
        same = int(np.count_nonzero((a[:n - lag] == a[lag:]) & use))
        of = int(np.count_nonzero(use))
        if abs(same - of * prob) < 4 * math.sqrt(of * prob * (1 - prob)):
            continue
        t = 2 * len(lags) * float(min(ss.binom.cdf(same, of, prob), ss.binom.sf(same - 1, of, prob)))
        best = min(best, (t, lag, same, of))
    return best
