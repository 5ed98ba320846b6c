"""C02: the registry's sampling designs: stratification, determinism, anchoring, independence."""
import numpy as np
import refuq
from scipy import stats
from pelicun import uq

ID = 'C02'
RULE = 'seeded registries: number/kind of variables, anchors, sample size, method, generator seed'
QUICK, THOROUGH = 300, 6000
ASSUMPTIONS = ['statistical thresholds at 6.5 sigma or p<1e-10 per comparison']
MIN_OBS = {'anchored': 100, 'pairs': 500, 'strata': 5000}


def build(rng_seed, spec, gen_seed):
    reg = uq.RandomVariableRegistry(np.random.default_rng(gen_seed))
    rvs = {}
    for name, kind, fam, p, a, b, anchor in spec:
        if kind == 'det':
            rv = uq.DeterministicRandomVariable(name, np.array([p[0]]))
        elif kind == 'emp':
            rv = uq.EmpiricalRandomVariable(name, np.array(p))
        elif kind == 'multi':
            rv = uq.MultinomialRandomVariable(name, np.array(p))
        else:
            rv = uq.rv_class_map(fam)(name=name, theta=np.array(p), truncation_limits=np.array([a, b]),
                                      anchor=rvs[anchor] if anchor else None)
        rvs[name] = rv
        reg.add_RV(rv)
    return reg


def case(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 7, 50, 200, 500, 1000, 3000, 12000], p=[.1, .1, .1, .1, .12, .14, .13, .13, .04, .04]))
    meth = str(rng.choice(['LHS', 'LHS_midpoint', 'MonteCarlo']))
    nv = int(rng.integers(1, 9))
    spec = []
    for i in range(nv):
        kind = str(rng.choice(['rv', 'rv', 'rv', 'rv', 'det', 'emp', 'multi']))
        name = f'v{i}'
        if kind == 'det':
            spec.append((name, kind, None, (float(rng.normal()),), None, None, None))
        elif kind == 'emp':
            spec.append((name, kind, None, tuple(rng.normal(size=5)), None, None, None))
        elif kind == 'multi':
            w = rng.integers(1, 9, 3)
            spec.append((name, kind, None, tuple(w / w.sum() * .999), None, None, None))
        else:
            fam, p, a, b, _ = refuq.draw(rng)
            free = [s[0] for s in spec if s[1] == 'rv']
            anchor = None
            if free and rng.random() < .4:
                anchor = str(rng.choice(free))
            spec.append((name, kind, fam, p, a, b, anchor))
    seed = int(rng.integers(1 << 40))
    ctx.describe(n=n, method=meth, variables=[(s[0], s[1], s[2], s[6]) for s in spec])
    reg = build(rng, spec, seed)
    reg.generate_sample(n, meth)
    kinds = {s[0]: s for s in spec}

    def root(name):
        while kinds[name][6]:
            name = kinds[name][6]
        return name

    us = {}
    for name, kind, fam, p, a, b, anchor in spec:
        x = np.asarray(reg.RV_sample[name])
        ctx.check(x.shape == (n,), 'sample_size', f'{name}: {x.shape} for n={n}')
        if kind == 'det':
            ctx.check((x == p[0]).all(), 'deterministic', name)
            continue
        u = np.array(reg.RV[name].uni_sample)
        ctx.check(u.shape == (n,) and (u >= 0).all() and (u <= 1).all(), 'uniform_range', name)
        if anchor:
            ctx.count('anchored')
            ctx.check(np.array_equal(u, reg.RV[root(name)].uni_sample), 'anchor_not_shared',
                      f'{name} anchored to {anchor}')
        else:
            us[name] = u
        # the sample is the inverse transform of that uniform sample
        if kind == 'rv':
            ctx.close(refuq.cdf(fam, p, x, a, b), u, 'sample_not_from_uniform', f'{name} {fam}',
                      rtol=1e-6, atol=1e-7)
        elif kind == 'emp':
            ctx.close(x, np.array(p)[np.minimum((u * 5).astype(int), 4)], 'sample_not_from_uniform', name)
    for name, u in us.items():
        bins = np.floor(u * n).astype(int)
        if meth.startswith('LHS'):
            ctx.count('strata', n)
            ctx.check(np.array_equal(np.sort(bins), np.arange(n)), 'not_stratified',
                      f'{name}: {meth} n={n} leaves {n - len(np.unique(bins))} strata empty')
            if meth == 'LHS_midpoint':
                ctx.close(u * n - bins, np.full(n, .5), 'not_midpoint', f'{name}', atol=1e-6)
            elif n >= 50:
                off = u * n - bins
                ctx.check(stats.kstest(off, 'uniform').pvalue > 1e-10, 'offset_in_stratum',
                          'positions inside the strata are not uniform')
        elif n >= 200:
            ctx.check(stats.kstest(u, 'uniform').pvalue > 1e-10, 'not_uniform', f'{name} MonteCarlo')
            ctx.check(len(np.unique(bins)) < .9 * n, 'montecarlo_stratified', name)
        if n >= 50:   # order of realizations carries no trend
            r = np.corrcoef(u, np.arange(n))[0, 1]
            ctx.check(abs(r) < 6.5 / np.sqrt(n), 'trend', f'{name}: r={r}')
    names = list(us)
    if n >= 50:
        for i, a_ in enumerate(names):
            for b_ in names[i + 1:]:
                r = np.corrcoef(us[a_], us[b_])[0, 1]
                ctx.count('pairs')
                ctx.check(abs(r) < 6.5 / np.sqrt(n), 'free_variables_correlated',
                          f'{a_},{b_}: r={r} n={n} {meth}')
    # determinism in the generator state, and only in that
    reg2 = build(rng, spec, seed)
    np.random.seed(int(rng.integers(1 << 30)))
    reg2.generate_sample(n, meth)
    for name in reg.RV_sample:
        ctx.check(np.array_equal(reg.RV_sample[name], reg2.RV_sample[name]), 'not_reproducible', name)
    if n >= 50 and us:
        reg3 = build(rng, spec, seed + 1)
        reg3.generate_sample(n, meth)
        ctx.check(not np.array_equal(reg3.RV[names[0]].uni_sample, us[names[0]]), 'seed_ignored', names[0])
        # consecutive samples from one generator differ
        reg2.generate_sample(n, meth)
        ctx.check(not np.array_equal(reg2.RV[names[0]].uni_sample, us[names[0]]), 'repeated_stream', names[0])
    try:
        reg.add_RV(uq.DeterministicRandomVariable('v0', np.array([1.0])))
        ctx.violate('duplicate_accepted', 'v0 registered twice')
    except ValueError:
        ctx.count('rejected')
    sub = reg.RVs(['v0'])
    ctx.check(list(sub) == ['v0'] and sub['v0'] is reg.RV['v0'], 'RVs_subset', 'wrong subset')
    ctx.observe(meth, n, nv, sum(1 for s in spec if s[6]))
