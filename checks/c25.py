"""C25: loss combination applies the stated combination to matching losses."""
import itertools
import numpy as np
import pandas as pd
import dmg
import loss
import pbe
from runner import Skip

ID = 'C25'
RULE = ('seeded buildings with pairs or triples of components at the same and at different locations, other components next to them, '
        'asymmetric combination tables of two and three components; every aggregate and the untouched component sample against '
        'multilinear interpolation of the table; losses outside the table rejected')
QUICK, THOROUGH = 260, 10000
MIN_OBS = {'combined_groups': 700, 'triples': 40, 'single_groups': 100, 'reversed': 60, 'rejected': 10, 'time': 40}


def interpolate(xs, table, pts):
    """Multilinear interpolation."""
    out = np.zeros(len(pts[0]))
    lo = [np.clip(np.searchsorted(x, p, side='right') - 1, 0, len(x) - 2) for x, p in zip(xs, pts)]
    w = [(p - x[i]) / (x[i + 1] - x[i]) for x, p, i in zip(xs, pts, lo)]
    for c in itertools.product((0, 1), repeat=len(xs)):
        f = np.ones(len(out))
        for wi, b in zip(w, c):
            f = f * (wi if b else 1 - wi)
        out += f * table[tuple(i + b for i, b in zip(lo, c))]
    return out


def case(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 3, 20]))
    dim = 3 if rng.random() < .3 else 2
    names = [f'{pbe.pick(rng, "BCWF")}.{i}{rng.integers(100, 999)}' for i in range(dim)]
    others = [f'{pbe.pick(rng, "AEZ")}.{i}{rng.integers(10, 99)}' for i in range(int(rng.integers(0, 3)))]
    S = int(rng.integers(1, 4))
    a = pbe.assessment({}, S, int(rng.integers(1e6)))
    dem = {(lo, d): rng.uniform(.01, 1., n) for lo in range(1, S + 1) for d in (1, 2)}
    df = pd.DataFrame({f'PID-{lo}-{d}': ['unitless', *v] for (lo, d), v in dem.items()})
    df.index = ['Units', *map(str, range(n))]
    a.demand.load_sample(df)
    groups, rows = {}, []
    for lo in range(1, S + 1):
        for d in (1, 2):
            g = [c for c in names if rng.random() < .85] + [c for c in others if rng.random() < .5]
            for c in rng.permutation(g):
                rows.append((c, 'ea', lo, d, 1., 1))
                groups.setdefault((str(lo), str(d)), set()).add(str(c))
    if not any(set(names) <= g for g in groups.values()):
        raise Skip
    M = pd.DataFrame([r[1:] for r in rows], index=[r[0] for r in rows], columns=['Units', 'Location', 'Direction', 'Theta_0', 'Blocks'])
    a.asset.load_cmp_model({'marginals': M})
    a.asset.generate_cmp_sample(sample_size=n)
    dvs = tuple(str(x) for x in rng.permutation(['Cost', 'Time', 'CO2'])[:int(rng.integers(1, 4))])
    cons = {c: (f'k.{i}' if rng.random() < .3 else c) for i, c in enumerate(names + others)}
    unit = {'Cost': 'USD_2011', 'Time': 'worker_day', 'CO2': pbe.pick(rng, ['kg', 'ton'])}
    fun, frag, tab = {}, {}, {}
    for c in names + others:
        lf = rng.random() < .7
        for dv in dvs:
            s = 10 ** rng.uniform(0, 2)
            if lf:
                ys = [0., pbe.sig(s), pbe.sig(1.5 * s)]
                fun[f'{cons[c]}-{dv}'] = {'DV-Unit': unit[dv], 'Demand-Type': 'Peak Interstory Drift Ratio', 'Demand-Unit': 'unitless',
                                          'Demand-Offset': 0, 'Demand-Directional': 1,
                                          'LossFunction-Theta_0': ','.join(map(str, ys)) + '|0.0,0.5,1.0'}
            else:
                tab[f'{cons[c]}-{dv}'] = {'DV-Unit': unit[dv], 'Quantity-Unit': '1 EA', 'Incomplete-': 0, 'DS1-Theta_0': pbe.sig(s)}
        if not lf and c in set(M.index):
            frag[c] = {'Demand-Type': 'Peak Interstory Drift Ratio', 'Demand-Unit': 'unitless', 'Demand-Offset': 0, 'Demand-Directional': 1,
                       'LS1-Theta_0': .4, 'Incomplete-': 0}
    if frag:
        a.damage.load_model_parameters([pd.DataFrame.from_dict(frag, orient='index')], set(a.asset.list_unique_component_ids()))
        a.damage.calculate()
    a.loss.decision_variables = dvs
    ids = [c for c in names + others if c in set(M.index)]
    a.loss.add_loss_map(pd.DataFrame({'Repair': [cons[c] for c in ids]}, index=ids))
    a.loss.load_model_parameters([pd.DataFrame.from_dict(x, orient='index') for x in (fun, tab) if x])
    a.loss.calculate()
    comp = loss.components(a)
    stored = {k: v.copy() for k, v in comp.items()}
    # tables
    order = list(rng.permutation(names)) if rng.random() < .5 else names
    order = [str(x) for x in order]
    ctx.count('reversed', order != sorted(order))
    out_of_range = rng.random() < .1
    combos, ref = {}, {}
    for dv in dvs:
        if combos and rng.random() < .4:
            continue
        xs = []
        for c in order:
            v = [x for k, x in comp.items() if k[0] == dv and k[2] == c]
            top = max([x.max() for x in v] + [1e-3]) * 1.05
            if out_of_range and not xs:
                top *= .9 / 1.05
            k = int(rng.integers(2, 5))
            xs.append(np.r_[0., np.sort(rng.uniform(.05, .95, k - 1)) * top, top])
        # the first entries along each axis are the values of that component alone
        grid = np.meshgrid(*xs, indexing='ij')
        T = np.asarray(sum(grid), dtype=float)
        many = sum(g > 0 for g in grid) > 1
        T = np.where(many, T * rng.uniform(.3, 1., T.shape), T)
        combos[dv] = {tuple(order): T}
        ref[dv] = (xs, T)
    groups6 = {}
    for k in comp:
        groups6.setdefault((k[0],) + k[3:], {})[k[2]] = k
    want = {k: v for k, v in comp.items()}
    beyond = False
    usable = set()
    for g, ks in groups6.items():
        if g[0] in ref and set(order) <= set(ks):
            usable.add(g[0])
            xs, T = ref[g[0]]
            pts = [comp[ks[c]] for c in order]
            beyond |= any((p > x[-1]).any() for p, x in zip(pts, xs))
            for c in order:
                want.pop(ks[c])
            if not beyond:
                want[(g[0], 'combination', '-') + g[1:]] = interpolate(xs, T, pts)
            ctx.count('combined_groups')
            ctx.count('triples', dim == 3)
        elif g[0] in ref and set(order) & set(ks):
            ctx.count('single_groups')
    combos = {dv: c for dv, c in combos.items() if dv in usable}
    if not combos:
        raise Skip
    before = {dv: {k: t.copy() for k, t in c.items()} for dv, c in combos.items()}
    ctx.describe(order=order, groups=repr(groups)[:400], combos=repr(combos)[:600], dvs=dvs)
    if beyond:
        ctx.count('rejected')
        try:
            r = a.loss.aggregate_losses(None, combos, future=True)[0]
        except ValueError:
            return
        ctx.violate('out-of-range', f'losses beyond the combination table were combined: {r}')
        return
    agg, _ = a.loss.aggregate_losses(None, combos, future=True)
    exp = {}
    for dv in dvs:
        ks = [k for k in want if k[0] == dv]
        if not ks:
            continue
        f = pbe.U[unit[dv]]
        if dv == 'Time':
            ctx.count('time')
            exp['repair_time', 'sequential'] = sum(want[k] for k in ks) / f
            exp['repair_time', 'parallel'] = np.max([sum(want[k] for k in ks if k[3] == lo) for lo in {k[3] for k in ks}], axis=0) / f
        else:
            exp[f'repair_{dv.lower()}', ''] = sum(want[k] for k in ks) / f
    obs = {(c if isinstance(c, tuple) else (c, '')): agg[c].to_numpy(dtype=float) for c in agg.columns}
    if ctx.check(set(obs) == set(exp), 'columns', lambda: f'{list(obs)} expected {list(exp)}'):
        for k, v in exp.items():
            ctx.close(obs[k], v, 'combined', f'{k} for combination of {order}', rtol=1e-7, atol=1e-9)
    now = loss.components(a)
    ctx.check(set(now) == set(stored) and all(np.array_equal(now[k], stored[k]) for k in stored), 'sample-changed', 'combination changed the component losses')
    ctx.check(all(np.array_equal(t, before[dv][k]) for dv, c in combos.items() for k, t in c.items()), 'table-changed', 'combination tables were modified')
    ctx.observe(dim, tuple(order) == tuple(sorted(order)), len(others), len(combos), bool(frag), bool(fun), len({frozenset(g) for g in groups.values()}))
