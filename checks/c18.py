"""C18: capacities have the stated distribution, damage-state weights and scaling."""
import numpy as np
import pandas as pd
import pbe
import refuq

ID = 'C18'
RULE = ('seeded fragilities (normal, lognormal, other families, multilinear, deterministic; truncation; 1-4 limit states; weights), '
        'blocks, directions, sampling methods and scaling specifications (scalar, per realization, ALL); frequencies of limit '
        'states per demand level against the analytic probabilities (1/N resolution for stratified samples, 6 sigma otherwise), '
        'independence between blocks, exact results for deterministic capacities')
QUICK, THOROUGH = 160, 5000
MIN_OBS = {'zero_weights': 20, 'cut_at_zero': 15, 'blocks': 600, 'frequencies': 2500, 'scaled_blocks': 150, 'weighted': 150, 'rejected': 10}




def case(ctx):
    rng = ctx.rng
    method = pbe.pick(rng, ['LHS', 'LHS', 'LHS_midpoint', 'MonteCarlo'])
    N = 1200 if ctx.tier == 'quick' else int(rng.choice([1200, 6000]))
    unit = pbe.pick(rng, pbe.ACC)
    f = pbe.U[unit]
    levels = int(rng.choice([1, 1, 3]))
    D = 4. * np.exp(np.sort(rng.uniform(-.6, .6, levels)))
    grp = rng.permutation(np.arange(N) % levels)
    d = D[grp]
    a = pbe.assessment({'SamplingMethod': method, 'DemandOffset': {'PFA': 0}, 'NonDirectionalMultipliers': {'ALL': 1.}}, 2, int(rng.integers(1e6)))
    df = pd.DataFrame({f'PFA-{lo}-{dr}': ['mps2', *d] for lo in (1, 2) for dr in (1, 2)})
    df.index = ['Units', *map(str, range(N))]
    a.demand.load_sample(df)
    ncmp = int(rng.integers(1, 4))
    truth, frag, marg = {}, {}, []
    for c in range(ncmp):
        name = f'C.{c}'
        k = int(rng.integers(1, 5))
        meds = np.sort(4. * np.exp(rng.uniform(-.7, 1., k))) if rng.random() < .7 else 4. * np.exp(rng.uniform(-.7, 1., k))
        row = {'Demand-Type': 'Peak Floor Acceleration', 'Demand-Unit': unit, 'Demand-Offset': 0, 'Demand-Directional': int(rng.random() < .7), 'Incomplete-': 0}
        ls = []
        ds = 0
        scheme = pbe.pick(rng, ['mixed', 'lognormal', 'scalable'])
        for i in range(1, k + 1):
            fam = pbe.pick(rng, {'mixed': ['normal', 'lognormal', 'normal_cov', 'normal_std', 'uniform', 'det', 'multilinear_CDF'],
                                 'lognormal': ['lognormal'], 'scalable': ['normal', 'lognormal', 'det']}[scheme])
            med = pbe.sig(meds[i - 1] / f, 8)
            lo = hi = np.nan
            tab = None
            if fam == 'multilinear_CDF':
                xs = [pbe.sig(x, 5) for x in np.sort(med * np.exp(rng.uniform(-1, 1, 4)))]
                ys = [0., *[pbe.sig(y, 5) for y in np.sort(rng.uniform(.05, .95, 2))], 1.]
                row[f'LS{i}-Theta_0'] = ','.join(map(str, xs)) + '|' + ','.join(map(str, ys))
                p = (med, np.nan)
                tab = (np.array(xs) * f, np.array(ys))
            else:
                t1 = {'normal': .25, 'normal_cov': .3, 'lognormal': .5, 'normal_std': med * .3, 'uniform': med * 1.9, 'weibull': 2.5}.get(fam, np.nan)
                row[f'LS{i}-Theta_0'], row[f'LS{i}-Theta_1'] = med, t1
                p = (med * f, t1 * f if fam in ('normal_std', 'uniform') else t1)
                if fam not in ('det', 'weibull') and rng.random() < .2:
                    if rng.random() < .6:
                        lo = pbe.sig(float(refuq.raw_ppf(fam, (med, t1), rng.uniform(.05, .4))), 8)
                    if rng.random() < .6:
                        hi = pbe.sig(float(refuq.raw_ppf(fam, (med, t1), rng.uniform(.6, .95))), 8)
                if fam.startswith('normal') and rng.random() < .15:
                    # capacities that cannot be negative
                    t1, lo = (.8, 0.) if fam != 'normal_std' else (pbe.sig(med * .8), 0.)
                    row[f'LS{i}-Theta_1'] = t1
                    p = (med * f, t1 * f if fam == 'normal_std' else t1)
                    ctx.count('cut_at_zero')
                row[f'LS{i}-TruncateLower'], row[f'LS{i}-TruncateUpper'] = lo, hi
            row[f'LS{i}-Family'] = (np.nan if rng.random() < .5 else 'deterministic') if fam == 'det' else fam
            w = None
            if rng.random() < .35:
                w = [round(float(x), 3) for x in rng.dirichlet(np.ones(int(rng.integers(2, 4))) * 3)]
                w[-1] = round(1 - sum(w[:-1]), 6)
                if rng.random() < .25:      # a state that is listed but not possible
                    ctx.count('zero_weights')
                    w.insert(int(rng.integers(len(w) + 1)), 0.0)
                row[f'LS{i}-DamageStateWeights'] = ' | '.join(map(str, w))
            n = 1 if w is None else len(w)
            ls.append({'fam': fam, 'p': p, 'lo': lo * f, 'hi': hi * f, 'tab': tab, 'w': w, 'ds': list(range(ds + 1, ds + n + 1))})
            ds += n
        truth[name] = ls
        frag[name] = row
        for lo in rng.permutation([1, 2])[:int(rng.integers(1, 3))]:
            for dr in rng.permutation([1, 2])[:int(rng.integers(1, 3))]:
                marg.append((name, 'ea', int(lo), int(dr), 1., int(rng.integers(1, 4))))
    M = pd.DataFrame([m[1:] for m in marg], index=[m[0] for m in marg], columns=['Units', 'Location', 'Direction', 'Theta_0', 'Blocks'])
    a.asset.load_cmp_model({'marginals': M})
    a.asset.generate_cmp_sample(sample_size=N)
    F = pd.DataFrame.from_dict(frag, orient='index')
    a.damage.load_model_parameters([F], set(frag))
    # scaling
    spec, ops = {}, {}
    if rng.random() < .6:
        for m in marg:
            if rng.random() < .5:
                key = f'{m[0]}-{m[2]}-{m[3]}'
                k = len(truth[m[0]])
                tgt = ['ALL'] if rng.random() < .4 else [f'LS{i}' for i in range(1, k + 2) if rng.random() < .6]
                for t in tgt:
                    def one():
                        o = pbe.pick(rng, '*/+-')
                        v = {'*': rng.uniform(.6, 1.6), '/': rng.uniform(.6, 1.6), '+': rng.uniform(0, 1.5), '-': rng.uniform(0, .8)}[o]
                        return f'{o}{pbe.sig(v, 4)}'
                    if rng.random() < .3:
                        base = [one() for _ in range(4)]
                        v = [base[i] for i in rng.integers(0, 4, N)]
                    else:
                        v = one()
                    spec.setdefault(key, {})[t] = v
                    ops.setdefault(key, {})[t] = v
        if rng.random() < .3:
            spec['OTHER-1-1'] = {'ALL': '*3.0'}
    ctx.describe(method=method, levels=levels, families={k: [x['fam'] for x in v] for k, v in truth.items()},
                 scaling={k: {t: (v if isinstance(v, str) else f'{len(v)} values') for t, v in s.items()} for k, s in spec.items()})
    if spec and rng.random() < .3:
        rejected(ctx, a, spec)
    keep = repr(spec)
    a.damage.calculate(scaling_specification=spec or None, block_batch_size=int(rng.choice([1, 3, 1000])))
    ctx.check(repr(spec) == keep, 'scaling_changed', 'the scaling specification was modified')
    S = a.damage.ds_model.ds_sample
    exceed_first = []
    for m in marg:
        name, key = m[0], f'{m[0]}-{m[2]}-{m[3]}'
        ls = truth[name]
        op = ops.get(key, {})
        # probability that each limit state is exceeded, per realization
        P = np.array([prob(x, d, op.get('ALL') or op.get(f'LS{i + 1}'), N) for i, x in enumerate(ls)])
        above = np.zeros(N)
        top = np.zeros_like(P)
        for i in range(len(ls) - 1, -1, -1):
            top[i] = np.maximum(0, P[i] - above)
            above = np.maximum(above, P[i])
        for b in range(1, m[5] + 1):
            s = S[name, str(m[2]), str(m[3]), '0', str(b)].to_numpy()
            ctx.count('blocks')
            if op:
                ctx.count('scaled_blocks')
            tag = f'{name} {[(x["fam"], x["p"], x["lo"], x["hi"], x["w"]) for x in ls]} at {key} block {b} scaling {str(op)[:80]} {method}'
            valid = {0} | {v for x in ls for v in x['ds']}
            if not ctx.check(set(s.tolist()) <= valid, 'unknown_state', f'{tag}: {set(s.tolist())}'):
                return
            ctx.observe(method, levels, tuple(x['fam'] for x in ls), bool(op), tuple(x['w'] is None for x in ls))
            for i, x in enumerate(ls):
                hit = np.isin(s, x['ds'])
                const = levels == 1 and not isinstance(op.get('ALL') or op.get(f'LS{i + 1}'), list) and \
                    not any(isinstance(v, list) for v in op.values())
                for g in range(levels):
                    sel = grp == g
                    n, k = sel.sum(), hit[sel].sum()
                    mean, var = top[i][sel].sum(), (top[i] * (1 - top[i]))[sel].sum()
                    tol = 2.01 if const and method.startswith('LHS') else 6 * np.sqrt(var) + 2.01 * (var > 0) + 1e-6
                    if np.all((top[i][sel] < 1e-12) | (top[i][sel] > 1 - 1e-12)):
                        tol = 1e-6
                    ctx.count('frequencies')
                    if not ctx.check(abs(k - mean) <= tol, 'limit_state_frequency',
                                     f'{tag}: LS{i + 1} at demand {D[g]:.4g}: {k} of {n}, expected {mean:.2f} +- {tol:.2f}'):
                        return
                # exact where the capacity is deterministic
                if x['w'] is not None and hit.sum() > 0:
                    ctx.count('weighted')
                    nh = hit.sum()
                    for w, v in zip(x['w'], x['ds']):
                        k = (s == v).sum()
                        tol = 6 * np.sqrt(nh * w * (1 - w)) + 3 * (0 < w < 1)
                        ctx.check(abs(k - nh * w) <= tol, 'damage_state_weights', f'{tag}: DS{v}: {k} of {nh}, expected {nh * w:.1f} +- {tol:.1f}')
            if all(x['fam'] == 'det' for x in ls):
                # every realization is known
                want = np.zeros(N, dtype=int)
                for i, x in enumerate(ls):
                    want = np.where(P[i] > .5, i + 1, want)
                got = np.zeros(N, dtype=int)
                for i, x in enumerate(ls):
                    got = np.where(np.isin(s, x['ds']), i + 1, got)
                ctx.check((want == got).all(), 'deterministic', tag)
            # randomness left after the known probability
            p0 = P.max(axis=0)
            mid = (p0 > .08) & (p0 < .92)
            if mid.sum() > 200:
                exceed_first.append((tag, np.where(mid, (s > 0) - p0, 0.), np.where(mid, np.sqrt(p0 * (1 - p0)), 0.)))
    for i in range(len(exceed_first)):
        for j in range(i):
            ta, ra, sa = exceed_first[i]
            tb, rb, sb = exceed_first[j]
            if ((sa * sb) > 0).sum() < 200:
                continue
            z = (ra * rb).sum() / np.sqrt(((sa * sb) ** 2).sum())
            ctx.count('pairs')
            if not ctx.check(abs(z) < 6.5, 'not_independent', f'{ta} and {tb}: z = {z:.2f}'):
                return


def prob(x, d, op, N):
    """P(capacity < d) per realization."""
    p0, p1 = x['p']
    p0 = np.full(N, p0)
    if op is not None and x['fam'] in ('normal', 'lognormal', 'det'):
        o = op if isinstance(op, list) else [op] * N
        v = np.array([float(s[1:]) for s in o])
        s = np.array([t[0] for t in o])
        p0 = np.select([s == '*', s == '/', s == '+', s == '-'], [p0 * v, p0 / v, p0 + v, p0 - v])
    if x['fam'] == 'det':
        return (d > p0).astype(float)
    if x['fam'] == 'multilinear_CDF':
        return np.interp(d, *x['tab'])
    out = np.empty(N)
    cache = {}
    for i in range(N):
        k = (p0[i], d[i])
        if k not in cache:
            cache[k] = float(refuq.cdf(x['fam'], (p0[i], p1), d[i], x['lo'], x['hi']))
        out[i] = cache[k]
    return out


def rejected(ctx, a, spec):
    rng = ctx.rng
    key = next(iter(spec))
    bad = pbe.pick(rng, [{key: {'ALL': '*1.2', 'LS1': '*1.1'}}, {key: {'LS1': '^1.2'}}, {key: {'LS1': '*abc'}}, {key: {'LS1': 1.2}},
                         {key: {'DS1': '*1.2'}}, {key: {'LS1': ['*1.0', '1.2']}}])
    try:
        a.damage.calculate(scaling_specification=bad)
    except (ValueError, TypeError):
        ctx.count('rejected')
        return
    ctx.check(False, 'invalid_scaling_accepted', str(bad))
