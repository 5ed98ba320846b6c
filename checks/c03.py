"""C03: correlated sets: Gaussian copula with the prescribed matrix, marginals preserved."""
import numpy as np
import refuq
from scipy import stats
from pelicun import uq

ID = 'C03'
RULE = 'seeded correlation matrices (random, factor, block, singular, +-1), families, methods, set order'
QUICK, THOROUGH = 240, 4000
ASSUMPTIONS = ['correlation matrices are positive semidefinite (incl. singular)',
               'statistical thresholds at 6.5 sigma or p<1e-10']
MIN_OBS = {'pairs': 1000, 'marginals': 500}


def make_rho(rng, d):
    kind = str(rng.choice(['random', 'factor', 'perfect', 'block', 'minus', 'identity', 'lowrank', 'equi']))
    if kind == 'identity':
        return np.eye(d), kind
    if kind == 'perfect':
        return np.ones((d, d)), kind
    if kind == 'equi':
        r = rng.uniform(.05, .95)
        return np.full((d, d), r) + np.eye(d) * (1 - r), kind
    if kind == 'minus':
        s = rng.choice([-1., 1.], d)
        return np.outer(s, s), kind
    if kind == 'factor':
        l = rng.uniform(-.97, .97, d)
        R = np.outer(l, l)
        np.fill_diagonal(R, 1)
        return R, kind
    if kind == 'block':
        R = np.eye(d)
        k = max(1, d // 2)
        R[:k, :k] = 1
        return R, kind
    A = rng.normal(size=(d, max(1, d - 1) if kind == 'lowrank' else d + 2))
    R = A @ A.T
    s = np.sqrt(np.diag(R))
    R = R / np.outer(s, s)
    np.fill_diagonal(R, 1)
    return (R + R.T) / 2, kind


def case(ctx):
    rng = ctx.rng
    d = int(rng.integers(2, 7))
    n = int(rng.choice([400, 1000, 2000]))
    R, kind = make_rho(rng, d)
    meth = str(rng.choice(['LHS', 'LHS_midpoint', 'MonteCarlo']))
    spec = [refuq.draw(rng) for _ in range(d)]
    names = [f'x{i}' for i in range(d)]
    rvs = {nm: uq.rv_class_map(s[0])(name=nm, theta=np.array(s[1]), truncation_limits=np.array(s[2:4]))
           for nm, s in zip(names, spec)}
    reg = uq.RandomVariableRegistry(np.random.default_rng(int(rng.integers(1 << 40))))
    extra = uq.NormalRandomVariable('free', np.array([0., 1.]))
    order = list(rng.permutation(d))            # registry order differs from the set's order
    for j, i in enumerate(order):
        reg.add_RV(rvs[names[i]])
        if j == 0:
            reg.add_RV(extra)
    anch = uq.LogNormalRandomVariable('anch', np.array([2., .5]), anchor=rvs[names[-1]])
    reg.add_RV(anch)
    R0 = R.copy()
    rv_set = uq.RandomVariableSet('set', [rvs[nm] for nm in names], R)
    reg.add_RV_set(rv_set)
    ctx.describe(d=d, n=n, method=meth, kind=kind, rho=np.round(R, 3).tolist(), families=[s[0] for s in spec])
    reg.generate_sample(n, meth)
    ctx.check(np.array_equal(R, R0), 'mutates_rho', kind)
    U = np.array([np.array(rvs[nm].uni_sample) for nm in names])
    ctx.check(((U >= 0) & (U <= 1)).all(), 'uniform_range', kind)
    Z = refuq.PhiInv(np.clip(U, 1e-15, 1 - 1e-15))
    C = np.corrcoef(Z)
    for i in range(d):
        for j in range(i + 1, d):
            r = R[i, j]
            ctx.count('pairs')
            tol = 6.5 * max(1 - r * r, 1e-7) / np.sqrt(n) + 20 * (1 - r * r) / n + 1e-7
            if abs(r) > 1 - 1e-12:
                tol = 1e-5
                ctx.close(U[i], U[j] if r > 0 else 1 - U[j], 'perfect_correlation',
                          f'{names[i]},{names[j]} r={r}', atol=1e-5)
            ctx.check(abs(C[i, j] - r) <= tol, 'correlation',
                      f'{names[i]},{names[j]}: observed {C[i, j]:.4f} prescribed {r:.4f} tol {tol:.4f} n={n} {meth} {kind}')
    for i, nm in enumerate(names):
        ctx.count('marginals')
        ctx.check(stats.kstest(U[i], 'uniform').pvalue > 1e-10, 'marginal_distorted',
                  f'{nm} under {kind} correlation: KS {stats.kstest(U[i], "uniform")}')
        fam, p, a, b, _ = spec[i]
        x = np.asarray(reg.RV_sample[nm])
        ctx.close(refuq.cdf(fam, p, x, a, b), U[i], 'sample_not_from_uniform', f'{nm} {fam}',
                  rtol=1e-6, atol=1e-7)
        ctx.check(np.array_equal(rv_set.sample[nm], x), 'set_sample', nm)
        rf = np.corrcoef(np.array(extra.uni_sample), U[i])[0, 1]
        ctx.check(abs(rf) < 6.5 / np.sqrt(n), 'outsider_correlated', f'free vs {nm}: {rf}')
    # joint behaviour, not only pairwise moments: orthant frequency of a pair vs the bivariate normal
    i, j = 0, d - 1
    p_ref = .25 + np.arcsin(np.clip(R[i, j], -1, 1)) / (2 * np.pi)
    f = ((Z[i] < 0) & (Z[j] < 0)).mean()
    ctx.check(abs(f - p_ref) < 6.5 * np.sqrt(max(p_ref * (1 - p_ref), 1e-3) / n) + 2 / n, 'copula_shape',
              f'orthant frequency {f} vs {p_ref} (rho {R[i, j]:.3f})')
    # anchored variable follows the correlated uniform of its anchor
    ctx.close(refuq.cdf('lognormal', (2., .5), np.asarray(anch.sample)), U[-1], 'anchor_after_correlation',
              rtol=1e-6, atol=1e-7)
    # reported (sub)matrix
    ctx.close(rv_set.Rho(), R, 'Rho')
    sub = [names[k] for k in rng.permutation(d)[:max(1, d - 1)]]
    ids = [names.index(s) for s in sub]
    ctx.close(rv_set.Rho(sub), R[np.ix_(ids, ids)], 'Rho_subset', str(sub))
    ctx.check(rv_set.size == d, 'size', str(rv_set.size))
    ctx.observe(kind, d, meth)
