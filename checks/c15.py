"""C15: component definitions expand to exactly the stated performance groups and quantities."""
from collections import Counter

import numpy as np
import pandas as pd
import pbe
import refuq

ID = 'C15'
RULE = ('seeded component tables: location/direction strings (single, list, range, keyword), stories, '
        'repeated rows, families, truncation, blocks, units, file or table input; each table is one case')
QUICK, THOROUGH = 240, 8000
MIN_OBS = {'performance_groups': 1500, 'sampled_columns': 800}
FAM = ['', 'normal', 'normal_cov', 'normal_std', 'lognormal', 'uniform']


def loc_string(rng, S):
    k = rng.integers(9)
    one = lambda: str(rng.integers(0, S + 3))  # noqa: E731
    if k == 0:
        return one()
    if k == 1:
        return int(one())
    if k == 2:
        return 'all'
    if k == 3:
        return 'top'
    if k == 4:
        return 'roof'
    if k == 5:
        v = rng.permutation(S + 3)[:rng.integers(2, min(5, S + 3) + 1)]
        return (', ' if rng.random() < .4 else ',').join(map(str, v))
    if k == 6:
        a, b = sorted(rng.integers(0, S + 2, 2))
        return f'{a}--{b}'
    if k == 7:
        return f'{rng.integers(1, S + 1)}--{pbe.pick(rng, ["top", "roof"])}'
    return float(one())


def dir_string(rng):
    k = rng.integers(7)
    if k == 0:
        return np.nan
    if k == 1:
        return int(rng.integers(0, 4))
    if k == 2:
        a, b = sorted(rng.integers(0, 4, 2))
        return f'{a}--{b}'
    if k == 3:
        return ','.join(map(str, rng.permutation(5)[:rng.integers(2, 4)]))
    if k == 4:
        return float(rng.integers(0, 3))
    return str(rng.integers(0, 3))


def case(ctx):
    rng = ctx.rng
    S = int(rng.choice([1, 2, 3, 5, 9, 12, 30]))
    ncmp = int(rng.integers(1, 7))
    rows, idx, truth = [], [], []
    names = [f'{pbe.pick(rng, "BCDE")}.{rng.integers(10, 99)}.{rng.integers(100, 999)}{pbe.pick(rng, "ab")}' for _ in range(ncmp)]
    with_blocks, with_fam, with_trunc = rng.random() < .8, rng.random() < .8, rng.random() < .4
    for name in sorted(set(names), key=lambda _: rng.random()):
        kind = pbe.pick(rng, [pbe.AREA, pbe.LEN, ['ea', 'EA']])
        for _ in range(int(rng.choice([1, 1, 1, 2, 3]))):
            u = pbe.pick(rng, kind)
            fam = pbe.pick(rng, FAM) if with_fam else ''
            q = pbe.sig(10 ** rng.uniform(-1, 3))
            t1 = {'normal': .3, 'normal_cov': .25, 'normal_std': q * .3, 'lognormal': .4, 'uniform': q * 2}.get(fam, np.nan)
            a = b = np.nan
            if with_trunc and fam in ('normal', 'normal_cov', 'normal_std', 'lognormal', 'uniform'):
                p = (q, t1)
                if rng.random() < .7:
                    a = pbe.sig(float(refuq.raw_ppf(fam, p, rng.uniform(.02, .4))), 9)
                if rng.random() < .5:
                    b = pbe.sig(float(refuq.raw_ppf(fam, p, rng.uniform(.6, .98))), 9)
                if fam.startswith('normal') and rng.random() < .3:
                    # quantities that cannot be negative
                    t1, a = {'normal_std': q * .9}.get(fam, .9), 0.
            L, D = loc_string(rng, S), dir_string(rng)
            blk = int(rng.integers(1, 5)) if with_blocks and rng.random() < .8 else np.nan
            rows.append([u, L, D, fam or np.nan, q, t1, a, b, blk])
            idx.append(name)
            f = pbe.U[u]
            truth += [(name, l, d, fam, q, t1, a, b, 1 if np.isnan(blk) else blk, f)
                      for l in pbe.locations(L, S) for d in pbe.directions(D)]
    df = pd.DataFrame(rows, index=idx, columns=['Units', 'Location', 'Direction', 'Family', 'Theta_0', 'Theta_1',
                                                'TruncateLower', 'TruncateUpper', 'Blocks'])
    drop = [c for c in ('Family', 'Theta_1', 'TruncateLower', 'TruncateUpper', 'Blocks') if df[c].isna().all()]
    df = df.drop(columns=drop)
    if rng.random() < .3:
        df['Comment'] = 'free text'
    if rng.random() < .3:
        df = df[list(rng.permutation(df.columns))]
    if not truth:
        return
    a_ = pbe.assessment(stories=S, seed=int(rng.integers(1e6)))
    src = 'file' if rng.random() < .4 else 'table'
    before = df.copy(deep=True)
    if src == 'file':
        p = ctx.tmp() / 'CMP'
        df.to_csv(f'{p}_marginals.csv')
        a_.asset.load_cmp_model(str(p))
    else:
        a_.asset.load_cmp_model({'marginals': df})
    ctx.describe(stories=S, source=src, rows=[dict(zip(df.columns, r)) for r in df.astype(str).to_numpy().tolist()][:3])
    ctx.check(df.equals(before), 'mutates_input', 'component table changed')

    m = a_.asset.cmp_marginal_params
    ctx.check(m.index.is_unique and list(m.index.names) == ['cmp', 'loc', 'dir', 'uid'], 'index', str(m.index[:5]))
    ctx.check(list(a_.asset.list_unique_component_ids()) == list(dict.fromkeys(m.index.get_level_values(0)))
              and set(a_.asset.list_unique_component_ids()) == {t[0] for t in truth}, 'component_ids', '')
    ctx.count('performance_groups', len(truth))
    want = Counter((t[0], t[1], t[2]) for t in truth)
    got = Counter(tuple(map(str, i[:3])) for i in m.index)
    if not ctx.check(got == want, 'performance_groups',
                     lambda: f'missing {list((want - got).items())[:5]} extra {list((got - want).items())[:5]}'):
        return

    # stated parameters in SI units, compared as multisets per location/direction
    def key(fam, q, t1, a, b, blk):
        r = lambda v: 'nan' if v is None or np.isnan(v) else f'{v:.7g}'  # noqa: E731
        return fam, r(q), r(t1), r(a), r(b), int(blk)

    exp, obs = Counter(), Counter()
    for n, l, d, fam, q, t1, a, b, blk, f in truth:
        s1 = f if fam in ('normal_std', 'uniform') else 1.
        exp[(n, l, d, key(fam, q * f, t1 * s1, a * f, b * f, blk))] += 1
    g = lambda r, c: r[c] if c in m.columns else np.nan  # noqa: E731
    for i, r in m.iterrows():
        fam = g(r, 'Family')
        obs[(i[0], str(i[1]), str(i[2]), key('' if pd.isna(fam) else fam, *(float(g(r, c)) for c in
             ('Theta_0', 'Theta_1', 'TruncateLower', 'TruncateUpper')), g(r, 'Blocks')))] += 1
    if 'Theta_1' not in m.columns:
        pass
    ctx.check(exp == obs, 'parameters', lambda: f'expected {list((exp - obs))[:2]} observed {list((obs - exp))[:2]}')
    for n in {t[0] for t in truth}:
        ctx.check(a_.asset.cmp_units[n] in {r[0] for r, i in zip(rows, idx) if i == n}, 'units', n)

    # quantities
    if 'Family' in m.columns:
        ctx.observe(src, *sorted({str(x) for x in m['Family'].dropna()}))
    ctx.observe(src, 'S', S, len(truth) // 20, *drop)
    N = int(rng.choice([1, 7, 40]))
    if any(t[3] == '' for t in truth) and 'Family' in m.columns and m['Family'].isna().any():
        ctx.count('mixed_family_tables')
    a_.asset.generate_cmp_sample(sample_size=N)
    s = a_.asset.cmp_sample
    ctx.check(sorted(tuple(map(str, c)) for c in s.columns) == sorted(tuple(map(str, i)) for i in m.index)
              and len(s) == N, 'sample_columns', f'{len(s.columns)} columns, {len(s)} rows')
    for i, r in m.iterrows():
        col = s[i]
        x = col.to_numpy(dtype=float).reshape(-1)
        ctx.count('sampled_columns')
        fam = g(r, 'Family')
        if pd.isna(fam):
            ctx.close(x, np.full(N, float(r['Theta_0'])), 'deterministic_quantity', str(i))
            continue
        P = (float(r['Theta_0']), float(g(r, 'Theta_1')))
        lo, hi = float(g(r, 'TruncateLower')), float(g(r, 'TruncateUpper'))
        ctx.check(pbe.strata_ok(x, lambda u: refuq.ppf(fam, P, u, lo, hi)), 'quantity_distribution',
                  lambda: f'{i} {fam} {P} {lo} {hi}: {x[:4]}')
    units = a_.asset.save_cmp_sample(save_units=True)
    vals, un = units
    for i in m.index:
        ctx.close(vals[i].to_numpy(dtype=float).reshape(-1) * pbe.U[un[i]], s[i].to_numpy(dtype=float).reshape(-1),
                  'saved_quantity', str(i), rtol=1e-7)
