"""Formulas of the microstructure features, written as plain loops over windows."""

import math

import numpy as np

LN2 = math.log(2.0)


def over_windows(n, w, first, f):
    """f(t0, t1) on every full window of w terms that starts at ``first`` or later."""
    out = np.full(n, np.nan)
    for t in range(first + w - 1, n):
        out[t] = f(t - w + 1, t + 1)
    return out


def close_close(c, w):
    r = np.r_[np.nan, c[1:] / c[:-1]]
    return over_windows(len(c), w, 1, lambda a, b: r[a:b].var(ddof=1))


def high_low(h, l, w):
    q = np.log(h / l) ** 2
    return over_windows(len(h), w, 0, lambda a, b: q[a:b].mean() / (4 * LN2))


def garman_klass(h, l, o, c, w):
    q = 0.5 * np.log(h / l) ** 2 - (2 * LN2 - 1) * np.log(c / o) ** 2
    return over_windows(len(h), w, 0, lambda a, b: q[a:b].mean())


def rogers_satchell(h, l, o, c, w):
    q = np.log(h / c) * np.log(h / o) + np.log(l / c) * np.log(l / o)
    return over_windows(len(h), w, 0, lambda a, b: q[a:b].mean())


def yang_zhang(h, l, o, c, w):
    k = 0.34 / (1.34 + (w + 1) / (w - 1))
    night = np.r_[np.nan, np.log(o[1:] / c[:-1])] ** 2
    day = np.r_[np.nan, np.log(c[1:] / o[:-1])] ** 2
    rs = rogers_satchell(h, l, o, c, w)
    return over_windows(len(h), w, 1, lambda a, b: night[a:b].mean() + k * day[a:b].mean()) + (1 - k) * rs


def beta_gamma(h, l, w):
    """Two-bar sums of squared log ranges averaged over w, and the squared log range of the last two bars."""
    n = len(h)
    beta, gamma = np.full(n, np.nan), np.full(n, np.nan)
    q = np.log(h / l) ** 2
    for t in range(1, n):
        gamma[t] = np.log(np.maximum(h[t], h[t - 1]) / np.minimum(l[t], l[t - 1])) ** 2
    for t in range(w, n):
        beta[t] = np.mean([q[i] + q[i - 1] for i in range(t - w + 1, t + 1)])
    return beta, gamma


def becker_parkinson(h, l, w):
    beta, gamma = beta_gamma(h, l, w)
    k2, den = math.sqrt(8 / math.pi), 3 - 2 * math.sqrt(2)
    s = (2**-0.5 - 1) * np.sqrt(beta) / (k2 * den) + np.sqrt(gamma / (k2**2 * den))
    return np.where(np.isnan(s), np.nan, np.maximum(s, 0))


def corwin_schultz(h, l, w):
    beta, gamma = beta_gamma(h, l, w)
    den = 3 - 2 * math.sqrt(2)
    a = (math.sqrt(2) - 1) * np.sqrt(beta) / den - np.sqrt(gamma / den)
    a = np.where(np.isnan(a), np.nan, np.maximum(a, 0))
    return 2 * (np.exp(a) - 1) / (1 + np.exp(a))


def edge_window(o, h, l, c):
    """Squared, signed spread estimate of one window (Ardia, Guidotti and Kroencke), nan when undefined, inf when
    numerically degenerate."""
    o, h, l, c = (np.log(x) for x in (o, h, l, c))
    m = (h + l) / 2
    T = len(o) - 1
    tau = [bool(h[i] != l[i] or l[i] != c[i - 1]) for i in range(1, T + 1)]
    po = sum((o[i] != h[i]) and tau[i - 1] for i in range(1, T + 1)) / T
    po += sum((o[i] != l[i]) and tau[i - 1] for i in range(1, T + 1)) / T
    pc = sum((c[i - 1] != h[i - 1]) and tau[i - 1] for i in range(1, T + 1)) / T
    pc += sum((c[i - 1] != l[i - 1]) and tau[i - 1] for i in range(1, T + 1)) / T
    pt = sum(tau) / T
    if pt == 0 or po == 0 or pc == 0:
        return np.nan
    now, old = slice(1, None), slice(None, -1)
    r1 = m[now] - o[now]  # mid - open
    r2 = o[now] - m[old]  # open - previous mid
    r3 = m[now] - c[old]  # mid - previous close
    r4 = c[old] - m[old]  # previous close - previous mid
    r5 = o[now] - c[old]  # open - previous close
    tau = np.array(tau, dtype=float)
    d1, d3, d5 = (r - tau * r.mean() / pt for r in (r1, r3, r5))
    x1 = -4 * (d1 * r2 / po + d3 * r4 / pc)
    x2 = -4 * (d1 * r5 / po + d5 * r4 / pc)
    v1, v2 = x1.var(), x2.var()
    size = max(np.abs(x1).max(), np.abs(x2).max())
    rmax = max(np.abs(r).max() for r in (r1, r2, r3, r4, r5))
    if v1 + v2 <= 1e-6 * size**2 or size < 1e-5 * rmax**2 or rmax < 1e-9:
        return np.inf
    return (v2 * x1.mean() + v1 * x2.mean()) / (v1 + v2)


def edge(h, l, o, c, w):
    return over_windows(len(h), w, 0, lambda a, b: edge_window(o[a:b], h[a:b], l[a:b], c[a:b]))


def roll_cov(c, w):
    """Sample covariance of successive log changes over w pairs."""
    d = np.r_[np.nan, np.diff(np.log(c))]

    def f(a, b):
        x, y = d[a:b], d[a - 1 : b - 1]
        return ((x - x.mean()) * (y - y.mean())).sum() / (w - 1)

    return over_windows(len(c), w, 2, f)


def kyle(c, v, w):
    q = np.r_[np.nan, np.abs(np.diff(c)) / v[1:]]
    return over_windows(len(c), w, 1, lambda a, b: q[a:b].mean())


def amihud(c, v, w):
    q = np.r_[np.nan, np.abs(c[1:] / c[:-1] - 1) / (v[1:] * c[1:])]
    return over_windows(len(c), w, 1, lambda a, b: q[a:b].mean())


def hasbrouck(c, v, w):
    q = np.r_[np.nan, np.abs(np.log(c[1:] / c[:-1])) / np.sqrt(v[1:] * c[1:])]
    return over_windows(len(c), w, 1, lambda a, b: q[a:b].mean())


def vpin(v, buy, w):
    q = np.abs(buy - (v - buy)) / v
    return over_windows(len(v), w, 0, lambda a, b: q[a:b].mean())
