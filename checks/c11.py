"""C11: the demand sample holds exactly the input demands (error rows removed, SI units, normalized labels)."""
import numpy as np
import pandas as pd
import pbe

ID = 'C11'
RULE = ('seeded demand tables: header with/without event id, spaces, types with suffix, column order, units per column '
        '(blank: base units), error column position and values, file or table; each table is one case')
QUICK, THOROUGH = 320, 12000
MIN_OBS = {'realizations': 5000, 'error_rows': 150}


def edps(rng):
    S = int(rng.integers(1, 13))
    out = set()
    for t in rng.permutation(['PFA', 'PFV', 'PID', 'RID', 'PGA', 'SA_0.23', 'SA_1.13', 'PIH'])[:rng.integers(1, 6)]:
        locs = [0] if t[:2] in ('PG', 'SA') else rng.permutation(S + 2)[:rng.integers(1, S + 2)]
        for lo in locs:
            for d in rng.permutation(4)[:rng.integers(1, 3)]:
                out.add((str(t), int(lo), int(d)))
    out = sorted(out)
    return [out[i] for i in rng.permutation(len(out))]


def case(ctx):
    rng = ctx.rng
    E = edps(rng)
    n = int(rng.choice([1, 2, 5, 30, 200]))
    event, spaces = rng.random() < .5, rng.random() < .3
    ints = rng.random() < .2
    ev = str(rng.integers(1, 4))
    cols, units, data, si = [], [], [], {}
    for e in E:
        fam = e[0].split('_')[0]
        u = pbe.pick(rng, pbe.EDP_UNITS[fam]) if rng.random() < .93 else None
        v = np.array([pbe.sig(x, 7) for x in 10 ** rng.uniform(-4, 3, n)])
        if ints:
            v = np.round(v * 100)
        if rng.random() < .1:
            v[rng.integers(n)] = 0.
        lab = [e[0], str(e[1]), str(e[2])]
        if spaces:
            lab = [pbe.pick(rng, ['{}', ' {}', '{} ']).format(x) for x in lab]
        cols.append('-'.join(([ev] if event else []) + lab))
        units.append(u if u else np.nan)
        data.append(v)
        si[(e[0], str(e[1]), str(e[2]))] = v * (pbe.U[u] if u else 1.)
    err = np.zeros(n, bool)
    with_err = rng.random() < .5
    if with_err:
        err = rng.random(n) < rng.choice([0, .1, .5])
        if err.all():
            err[0] = False
        pos = int(rng.integers(len(cols) + 1))
        cols.insert(pos, (f'{ev}-' if event else '') + 'ERROR')
        units.insert(pos, np.nan)
        code = int(rng.choice([1, 1, 1, 2, -1, 7]))   # any nonzero value flags an error
        data.insert(pos, err.astype(float) * code if rng.random() < .5 else err.astype(int) * code)
        ctx.count('error_rows', err.sum())
    df = pd.DataFrame({c: list(v) for c, v in zip(cols, data)}, dtype=object)
    df = pd.concat([pd.DataFrame([units], columns=cols, dtype=object), df])
    df.index = [pbe.pick(rng, ['Units', 'units', 'UNITS'])] + list(range(n))
    if rng.random() < .08 or all(isinstance(u, float) for u in units):
        # without units the values are in base units
        df = df.iloc[1:]
        df.index = range(n)
        for c, u, v in zip(cols, units, data):
            if 'ERROR' not in c:
                e = tuple(x.strip() for x in c.split('-'))[-3:]
                si[e] = v
        units = [np.nan] * len(cols)
        ctx.count('without_units')
    a = pbe.assessment({'Verbose': bool(rng.random() < .2)})
    src = 'file' if rng.random() < .5 else 'table'
    before = df.copy(deep=True)
    if src == 'file':
        p = str(ctx.tmp() / 'response.csv')
        df.to_csv(p)
        a.demand.load_sample(p)
    else:
        a.demand.load_sample(df)
    ctx.describe(columns=cols[:6], units=[str(u) for u in units[:6]], n=n, errors=int(err.sum()), source=src)
    ctx.observe(src, 'event' if event else '', 'spaces' if spaces else '', 'err' if err.any() else str(with_err),
                n, len(E) // 4, 'blank' if any(not isinstance(u, str) for u in units) else '', str(df.index[0])[:5])
    ctx.check(df.equals(before), 'mutates_input', 'caller table changed')
    s = a.demand.sample
    ctx.count('realizations', len(s) * s.shape[1])
    got = pbe.as_dict(s)
    ctx.check(len(got) == s.shape[1] and set(got) == set(si), 'labels', f'{sorted(got)[:5]} vs {sorted(si)[:5]}')
    ctx.check(list(s.columns.names) == ['type', 'loc', 'dir'], 'level_names', str(s.columns.names))
    for k, v in si.items():
        if k in got:
            ctx.close(got[k], v[~err], 'values', f'{k} {src}', rtol=1e-9, atol=1e-300)
    uu = a.demand.user_units
    for c, u in zip(cols, units):
        k = tuple(x.strip() for x in c.split('-'))[-3:]
        if isinstance(u, str):
            ctx.check(uu.get(k) == u, 'units', lambda: f'{k}: {uu.get(k)} expected {u}')
    if all(isinstance(u, str) for c, u in zip(cols, units) if 'ERROR' not in c):
        back, bu = a.demand.save_sample(save_units=True)
        for k, v in si.items():
            ctx.close(np.asarray(back[k], float).ravel() * pbe.U[bu[k]], v[~err], 'saved_values', str(k), rtol=1e-9, atol=1e-300)
            ctx.check(bu[k] == uu[k], 'saved_units', str(k))
