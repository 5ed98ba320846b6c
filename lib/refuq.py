"""Reference distributions, written from their textbook definitions.

Nothing here uses pelicun. A distribution is (family, parameters, a, b) with
truncation limits a, b (NaN: none).
"""
import numpy as np
from scipy import special

TINY = 5e-324


def Phi(z):
    return 0.5 * special.erfc(-np.asarray(z, float) / np.sqrt(2.0))


def PhiInv(p):
    return special.ndtri(np.asarray(p, float))


def raw_cdf(fam, p, x):
    x = np.asarray(x, float)
    with np.errstate(all='ignore'):
        if fam in ('normal', 'normal_cov'):
            return Phi((x - p[0]) / (abs(p[0]) * p[1]))
        if fam == 'normal_std':
            return Phi((x - p[0]) / p[1])
        if fam == 'lognormal':
            pos = x > 0
            return np.where(pos, Phi(np.log(np.where(pos, x, 1.0) / p[0]) / p[1]), 0.0)
        if fam == 'uniform':
            return np.clip((x - p[0]) / (p[1] - p[0]), 0, 1)
        if fam == 'weibull':
            xp = np.maximum(x, 0)
            return -np.expm1(-(xp / p[0]) ** p[1])
    raise KeyError(fam)


def raw_ppf(fam, p, u):
    u = np.asarray(u, float)
    with np.errstate(all='ignore'):
        if fam in ('normal', 'normal_cov'):
            return p[0] + abs(p[0]) * p[1] * PhiInv(u)
        if fam == 'normal_std':
            return p[0] + p[1] * PhiInv(u)
        if fam == 'lognormal':
            return p[0] * np.exp(p[1] * PhiInv(u))
        if fam == 'uniform':
            return p[0] + u * (p[1] - p[0])
        if fam == 'weibull':
            return p[0] * (-np.log1p(-u)) ** (1.0 / p[1])
    raise KeyError(fam)


def limits_p(fam, p, a, b):
    pa = 0.0 if np.isnan(a) else float(raw_cdf(fam, p, a))
    pb = 1.0 if np.isnan(b) else float(raw_cdf(fam, p, b))
    return pa, pb


def cdf(fam, p, x, a=np.nan, b=np.nan):
    pa, pb = limits_p(fam, p, a, b)
    return np.clip((raw_cdf(fam, p, x) - pa) / (pb - pa), 0, 1)


def ppf(fam, p, u, a=np.nan, b=np.nan):
    pa, pb = limits_p(fam, p, a, b)
    return raw_ppf(fam, p, pa + np.asarray(u, float) * (pb - pa))


FAMS = ['normal', 'normal_cov', 'normal_std', 'lognormal', 'uniform', 'weibull']


def draw(rng, fam=None, trunc=None):
    """Random (family, params, a, b) with a usable probability mass inside."""
    fam = fam or FAMS[rng.integers(len(FAMS))]
    sc = 10.0 ** rng.uniform(-3, 4)
    if fam in ('normal', 'normal_cov'):
        p = (sc * rng.choice([-1, 1, 1]), rng.uniform(0.02, 1.2))
    elif fam == 'normal_std':
        p = (sc * rng.choice([-1, 0, 1]), sc * rng.uniform(0.02, 2))
    elif fam == 'lognormal':
        p = (sc, rng.uniform(0.03, 1.5))
    elif fam == 'uniform':
        lo = sc * rng.uniform(-2, 2)
        p = (lo, lo + sc * rng.uniform(0.05, 3))
    else:
        p = (sc, rng.uniform(0.6, 5))
    trunc = rng.choice(['none', 'none', 'low', 'high', 'both', 'both', 'wide', 'far']) \
        if trunc is None else trunc
    a = b = np.nan
    qa, qb = sorted(rng.uniform(0.02, 0.98, 2))
    if qb - qa < 0.05:
        qb = min(0.995, qa + 0.1)
    if trunc in ('low', 'both'):
        a = float(raw_ppf(fam, p, qa))
    if trunc in ('high', 'both'):
        b = float(raw_ppf(fam, p, qb))
    if trunc == 'wide':      # limits reaching beyond the support
        a = float(raw_ppf(fam, p, 1e-6)) - abs(p[0]) - 3 * abs(p[1])
        b = float(raw_ppf(fam, p, 1 - 1e-6)) + abs(p[0]) + 3 * abs(p[1])
        k = rng.integers(3)
        if k == 1:
            a = np.nan
        elif k == 2:
            b = np.nan
    if trunc == 'far':       # in a tail, still enough mass to be accurate
        if rng.random() < .5:
            a = float(raw_ppf(fam, p, 1 - 1e-3))
        else:
            b = float(raw_ppf(fam, p, 1e-3))
    return fam, p, a, b, str(trunc)
