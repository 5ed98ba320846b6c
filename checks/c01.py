"""C01: every random variable realizes exactly the distribution it was given."""
import numpy as np
import refuq
from pelicun import uq

ID = 'C01'
RULE = 'seeded (family, parameters, truncation, anchor) over all families; uniforms incl. extremes'
QUICK, THOROUGH = 2400, 12000
ASSUMPTIONS = ['truncation keeps at least 1e-3 of the probability mass']
MIN_OBS = {'values_compared': 50000, 'rejected_impossible_truncation': 5}


def grid(rng, n=200):
    return np.concatenate([rng.random(n), [1e-12, 1e-9, 1e-6, 1e-3, .5, .999, 1 - 1e-6, 1 - 1e-9]])


def case(ctx):
    k = ctx.index % 12
    if k == 8:
        return empirical(ctx)
    if k == 9:
        return multinomial(ctx)
    if k == 10:
        return multilinear(ctx)
    if k == 11:
        return (variable_theta if ctx.rng.random() < .6 else impossible)(ctx)
    rng = ctx.rng
    fam, p, a, b, tr = refuq.draw(rng)
    ctx.describe(family=fam, theta=p, limits=(a, b), truncation=tr)
    theta = np.array(p)
    lim = np.array([a, b])
    kw = {}
    if tr != 'none' or rng.random() < .5:
        kw['truncation_limits'] = lim
    t0, l0 = theta.copy(), lim.copy()
    rv = uq.rv_class_map(fam)(name='x', theta=theta, **kw)
    u = grid(rng)
    u0 = u.copy()
    x = rv.inverse_transform(u)
    ctx.check(np.array_equal(u, u0), 'mutates_input', 'inverse_transform changed its argument')
    ref = refuq.ppf(fam, p, u, a, b)
    sc = abs(ref).max() if np.isfinite(ref).all() else 1.0
    spread = float(refuq.ppf(fam, p, .9, a, b) - refuq.ppf(fam, p, .1, a, b))
    m = (u >= 1e-3) & (u <= .9990001)
    ctx.close(x[m], ref[m], 'inverse_transform', f'{fam} {p} limits {a, b}',
              rtol=1e-6, atol=1e-6 * spread)
    # extreme uniforms: compare in probability
    ctx.close(refuq.cdf(fam, p, x, a, b), u, 'inverse_transform_tail', f'{fam} {p} limits {a, b}',
              rtol=2e-3, atol=1e-9)
    eps = 1e-9 * max(sc, 1e-300)
    if not np.isnan(a):
        ctx.check((x >= a - eps).all(), 'below_lower_limit', f'{fam} {p} {a, b}: min {x.min()}')
    if not np.isnan(b):
        ctx.check((x <= b + eps).all(), 'above_upper_limit', f'{fam} {p} {a, b}: max {x.max()}')
    o = np.argsort(u)
    ctx.check((np.diff(x[o]) >= -eps).all(), 'not_monotone', f'{fam} {p} {a, b}')
    # cdf, at realized values, at and beyond the limits
    xs = np.concatenate([ref[m], ref[m] + spread, ref[m] - spread,
                         [v for v in (a, b) if not np.isnan(v)]])
    xs0 = xs.copy()
    c = rv.cdf(xs)
    ctx.check(np.array_equal(xs, xs0), 'mutates_input', 'cdf changed its argument')
    ctx.close(c, refuq.cdf(fam, p, xs, a, b), 'cdf', f'{fam} {p} limits {a, b}', rtol=1e-6, atol=1e-9)
    ctx.check((c >= -1e-12).all() and (c <= 1 + 1e-12).all(), 'cdf_range', f'{fam} {p} {a, b}')
    ctx.check(np.array_equal(theta, t0) and np.array_equal(lim, l0, equal_nan=True),
              'mutates_parameters', f'{fam}')
    # through the registry
    reg = uq.RandomVariableRegistry(np.random.default_rng(int(rng.integers(1 << 30))))
    reg.add_RV(rv)
    n = int(rng.integers(20, 300))
    meth = str(rng.choice(['LHS', 'LHS_midpoint', 'MonteCarlo']))
    fm = None
    reg.generate_sample(n, meth)
    us = np.array(rv.uni_sample)
    ctx.check(us.shape == (n,) and ((us >= 0) & (us <= 1)).all(), 'uniforms', 'not in [0,1]')
    ctx.close(refuq.cdf(fam, p, reg.RV_sample['x'], a, b), us, 'registry_sample',
              f'{fam} {p} {a, b} {meth}', rtol=1e-6, atol=1e-7)
    # f_map is applied to what is reported
    g = uq.rv_class_map(fam)(name='y', theta=theta, f_map=lambda v: v * 3 + 1, **kw)
    g.uni_sample = us
    g.inverse_transform_sampling()
    ctx.close(g.sample, reg.RV_sample['x'] * 3 + 1, 'f_map', fam)
    ctx.close(g.sample_DF.to_numpy(), reg.RV_sample['x'] * 3 + 1, 'f_map_df', fam)
    ctx.count('realizations', n + len(u))
    ctx.observe(fam, tr, meth)


def empirical(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 60))
    data = np.round(rng.normal(size=n), 6)
    d0 = data.copy()
    ctx.describe(family='empirical', n=n)
    rv = uq.EmpiricalRandomVariable('e', data)
    u = np.minimum(grid(rng), 1 - 1e-12)
    ctx.close(rv.inverse_transform(u), data[np.minimum((u * n).astype(int), n - 1)], 'empirical')
    # one stratified sample of the size of the data reproduces the data
    reg = uq.RandomVariableRegistry(np.random.default_rng(int(rng.integers(1 << 30))))
    reg.add_RV(rv)
    reg.generate_sample(n, 'LHS_midpoint')
    ctx.close(np.sort(reg.RV_sample['e']), np.sort(data), 'empirical_resample')
    m = int(rng.integers(1, 200))
    cp = uq.CoupledEmpiricalRandomVariable('c', data)
    det = uq.DeterministicRandomVariable('d', np.array([data[0]]))
    reg = uq.RandomVariableRegistry(np.random.default_rng(1))
    reg.add_RV(cp)
    reg.add_RV(det)
    reg.generate_sample(m, str(rng.choice(['LHS', 'MonteCarlo'])))
    ctx.close(reg.RV_sample['c'], data[np.arange(m) % n], 'coupled_empirical', f'n={n} m={m}')
    ctx.close(reg.RV_sample['d'], np.full(m, data[0]), 'deterministic')
    ctx.check(np.array_equal(data, d0), 'mutates_parameters', 'empirical')
    for cls in (uq.EmpiricalRandomVariable, uq.CoupledEmpiricalRandomVariable,
                uq.DeterministicRandomVariable):
        try:
            cls('t', np.array([1.0]), truncation_limits=np.array([0.0, 1.0]))
            ctx.violate('unsupported_truncation_accepted', cls.__name__)
        except NotImplementedError:
            ctx.count('rejected')
    ctx.observe('empirical', n == 1, m > n, m % n == 0)


def multinomial(ctx):
    rng = ctx.rng
    k = int(rng.integers(2, 7))
    w = rng.integers(1, 40, k).astype(float)
    w = w / w.sum()
    if rng.random() < .4:       # weights written with two decimals
        w = np.round(w, 2)
        w[-1] = round(1 - w[:-1].sum(), 2)
        if w.min() <= 0:
            w = np.full(4, .25)
            k = 4
    ctx.describe(family='multinomial', p=list(w))
    rv = uq.MultinomialRandomVariable('m', w.copy())
    u = grid(rng, 600)
    u0 = u.copy()
    got = rv.inverse_transform(u)
    ctx.check(np.array_equal(u, u0), 'mutates_input', 'multinomial changed its argument')
    edges = np.cumsum(w)[:-1]
    far = np.abs(u[:, None] - edges[None, :]).min(axis=1) > 1e-12
    ctx.close(np.asarray(got, float)[far], np.searchsorted(edges, u, side='right')[far].astype(float),
              'multinomial', f'{list(w)}')
    # stratified: shares are exact up to one bin
    reg = uq.RandomVariableRegistry(np.random.default_rng(int(rng.integers(1 << 30))))
    reg.add_RV(rv)
    n = 1000
    reg.generate_sample(n, 'LHS')
    s = np.asarray(reg.RV_sample['m'])
    for i in range(k):
        ctx.check(abs((s == i).sum() - n * w[i]) <= 2, 'multinomial_share',
                  f'state {i}: {(s == i).sum()} of {n}, p={w[i]}')
    us = np.array(rv.uni_sample)
    ctx.check(((us > 0) & (us < 1)).all() and len(np.unique(np.floor(us * n))) == n,
              'uniforms_overwritten', 'uniform sample changed by the inverse transform')
    try:
        uq.MultinomialRandomVariable('m2', np.append(w, .2))
        ctx.violate('invalid_weights_accepted', f'{w}')
    except ValueError:
        ctx.count('rejected')
    ctx.observe('multinomial', k)


def multilinear(ctx):
    rng = ctx.rng
    k = int(rng.integers(2, 8))
    x = np.cumsum(rng.uniform(.1, 2, k)) + rng.normal()
    y = np.concatenate([[0], np.sort(rng.uniform(.02, .98, k - 2)), [1.0]])
    y = np.linspace(0, 1, k) * .3 + y * .7
    y[0], y[-1] = 0, 1
    ctx.describe(family='multilinear_CDF', x=list(x), y=list(y))
    rv = uq.MultilinearCDFRandomVariable('q', np.column_stack([x, y]))
    u = grid(rng)
    ref = np.empty_like(u)
    for i, ui in enumerate(u):
        j = min(max(np.searchsorted(y, ui) - 1, 0), k - 2)
        ref[i] = x[j] + (ui - y[j]) / (y[j + 1] - y[j]) * (x[j + 1] - x[j])
    ctx.close(rv.inverse_transform(u), ref, 'multilinear_inverse', rtol=1e-9, atol=1e-9)
    ctx.close(rv.cdf(ref), u, 'multilinear_cdf', rtol=1e-9, atol=1e-9)
    ctx.close(rv.cdf(np.array([x[0] - 5, x[-1] + 5])), [0, 1], 'multilinear_cdf_outside')
    for bad in ('x', 'y0', 'y1', 'order'):
        t = np.column_stack([x, y])
        if bad == 'x':
            t[1, 0] = t[0, 0]
        elif bad == 'y0':
            t[0, 1] = .01
        elif bad == 'y1':
            t[-1, 1] = .99
        else:
            t[:, 0] = t[::-1, 0]
        try:
            uq.MultilinearCDFRandomVariable('q', t)
            ctx.violate('invalid_multilinear_accepted', bad)
        except ValueError:
            ctx.count('rejected')
    ctx.observe('multilinear', k)


def variable_theta(ctx):
    """2D theta: each realization comes from its own parameters."""
    rng = ctx.rng
    fam = str(rng.choice(['normal', 'normal_cov', 'normal_std', 'lognormal']))
    n = int(rng.integers(2, 40))
    t = np.column_stack([rng.uniform(.5, 20, n), rng.uniform(.05, .6, n)])
    tr = str(rng.choice(['none', 'low', 'both']))
    a = .1 if tr != 'none' else np.nan
    b = 40. if tr == 'both' else np.nan
    L = np.tile([a, b], (n, 1))
    own = tr != 'none' and rng.random() < .5    # each realization has its own limits
    if own:
        L = np.column_stack([refuq.raw_ppf(fam, t.T, rng.uniform(.02, .4, n)), refuq.raw_ppf(fam, t.T, rng.uniform(.6, .98, n))])
        L[rng.random(L.shape) < .15] = np.nan
    lims = L if own else np.array([a, b])
    lims0 = lims.copy()
    ctx.describe(family=fam, n=n, truncation=tr, variable=True, own_limits=own)
    rv = uq.rv_class_map(fam)(name='v', theta=t.copy(), truncation_limits=lims)
    u = rng.random(n)
    x = rv.inverse_transform(u)
    ref = [float(refuq.ppf(fam, t[i], u[i], *L[i])) for i in range(n)]
    ctx.close(x, ref, 'variable_theta', f'{fam} {tr}', rtol=1e-7)
    ctx.close(rv.cdf(np.array(ref)), u, 'variable_theta_cdf', f'{fam} {tr}', rtol=1e-6, atol=1e-9)
    far = np.abs(t[:, 0]) * rng.uniform(.02, 3, n)
    ctx.close(rv.cdf(far), [float(refuq.cdf(fam, t[i], far[i], *L[i])) for i in range(n)], 'variable_theta_cdf', f'{fam} {tr} anywhere', rtol=1e-6, atol=1e-9)
    ctx.check(np.array_equal(lims, lims0, equal_nan=True), 'mutates_parameters', 'limits')
    try:
        rv.inverse_transform(rng.random(n + 1))
        ctx.violate('wrong_length_accepted', fam)
    except ValueError:
        ctx.count('rejected')
    det = uq.DeterministicRandomVariable('d', t.copy())
    ctx.close(det.inverse_transform(n), t[:, 0], 'variable_theta_deterministic')
    ctx.observe('variable', fam, tr)


def impossible(ctx):
    """No probability mass between the limits: refused instead of sampled."""
    rng = ctx.rng
    fam = str(rng.choice(refuq.FAMS))
    _, p, _, _, _ = refuq.draw(rng, fam, 'none')
    if fam == 'weibull':
        lim = np.array([-3.0, -1.0])
    elif fam == 'uniform':
        lim = np.array([p[1] + 1, p[1] + 2])
    elif fam == 'lognormal':
        lim = np.array([p[0] * np.exp(60 * p[1]), p[0] * np.exp(61 * p[1])])
    else:
        s = p[1] if fam == 'normal_std' else abs(p[0]) * p[1]
        lim = np.array([p[0] + 60 * s, p[0] + 61 * s])
    if rng.random() < .3 and fam != 'weibull':   # reversed limits
        lim = np.array([refuq.raw_ppf(fam, p, .8), refuq.raw_ppf(fam, p, .2)])
    ctx.describe(family=fam, theta=p, limits=list(lim), impossible=True)
    rv = uq.rv_class_map(fam)(name='x', theta=np.array(p), truncation_limits=lim)
    for f in (rv.inverse_transform, rv.cdf):
        try:
            r = f(np.array([.2, .5]))
            ctx.violate('impossible_truncation_accepted', f'{fam} {p} {lim} -> {r}')
        except ValueError:
            ctx.count('rejected_impossible_truncation')
    ctx.observe('impossible', fam)
