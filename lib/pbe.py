"""Workload builders and reference models for whole assessments (plain numpy/pandas)."""
import numpy as np
import pandas as pd

import refuq

# SI factors from the definitions of the units, independent of the product's table
U = {
    'unitless': 1., 'ea': 1., 'EA': 1., 'rad': 1.,
    'm': 1., 'mm': 1e-3, 'cm': 1e-2, 'km': 1e3, 'in': .0254, 'inch': .0254, 'ft': .3048, 'mile': 5280 * .3048,
    'm2': 1., 'mm2': 1e-6, 'cm2': 1e-4, 'km2': 1e6, 'in2': .0254 ** 2, 'inch2': .0254 ** 2, 'ft2': .3048 ** 2,
    'mile2': (5280 * .3048) ** 2,
    'm3': 1., 'in3': .0254 ** 3, 'inch3': .0254 ** 3, 'ft3': .3048 ** 3,
    'mps': 1., 'cmps': 1e-2, 'inps': .0254, 'inchps': .0254, 'ftps': .3048, 'mph': 5280 * .3048 / 3600,
    'mps2': 1., 'inps2': .0254, 'inchps2': .0254, 'ftps2': .3048, 'g': 9.80665,
    'USD_2011': 1., 'USD': 1., 'worker_day': 1., 'loss_ratio': 1.,
    'kg': 1., 'ton': 1000., 'lb': .45359237,
    'sec': 1., 'minute': 60., 'hour': 3600., 'day': 86400.,
    'N': 1., 'kN': 1e3, 'lbf': .45359237 * 9.80665, 'kip': 453.59237 * 9.80665, 'kips': 453.59237 * 9.80665,
    'Npm': 1., 'kNpm': 1e3, 'lbpft': .45359237 * 9.80665 / .3048, 'kippft': 453.59237 * 9.80665 / .3048,
    'kipspft': 453.59237 * 9.80665 / .3048,
    'Pa': 1., 'kPa': 1e3, 'MPa': 1e6, 'GPa': 1e9, 'psi': .45359237 * 9.80665 / .0254 ** 2,
    'ksi': 453.59237 * 9.80665 / .0254 ** 2, 'Mpsi': 453592.37 * 9.80665 / .0254 ** 2,
    'A': 1., 'V': 1., 'kV': 1e3, 'KV': 1e3, 'C': 1., 'J': 1., 'MJ': 1e6,
    'SF': .3048 ** 2, 'LF': .3048, 'TN': 1000., 'AP': 1., 'CF': .3048 ** 3 / 60,
}
ACC, VEL, LEN, AREA = (['g', 'mps2', 'ftps2', 'inps2'], ['mps', 'inps', 'ftps', 'cmps'],
                       ['m', 'ft', 'in', 'mm', 'cm'], ['m2', 'ft2', 'in2', 'cm2'])
EDP_UNITS = {'PFA': ACC, 'PFV': VEL, 'PID': ['unitless', 'rad'], 'RID': ['unitless', 'rad'], 'PGA': ACC, 'SA': ACC, 'PGV': VEL,
             'PWS': VEL, 'PIH': LEN, 'PGD': LEN, 'SAX': ACC, 'PFAX': ACC}


def assessment(opts=None, stories=None, seed=1):
    from pelicun.assessment import Assessment
    o = {'Seed': seed}
    o.update(opts or {})
    a = Assessment(o)
    a.stories = stories
    return a


# ---------------------------------------------------------------- random choices
def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def sig(x, n=6):
    """x rounded to n significant digits (so that it survives text)."""
    return float(f'{x:.{n}g}')


def locations(s, stories):
    """The floors a location string denotes."""
    s = str(s).strip()
    word = {'all': list(range(1, stories + 1)), 'top': [stories], 'roof': [stories + 1]} if stories else {}
    if s in word:
        return [str(v) for v in word[s]]
    if '--' in s:
        a, b = s.split('--')
        return [str(v) for v in range(int(locations(a, stories)[0]), int(locations(b, stories)[0]) + 1)]
    if ',' in s:
        return [str(int(v)) for v in s.split(',')]
    return [str(int(float(s)))]


def directions(s):
    if s is None or (isinstance(s, float) and np.isnan(s)):
        return ['1']
    return locations(s, None)


# ---------------------------------------------------------------- demands
def demand_table(rng, edps, n, units=None, low=.3, high=2.5, ties=False):
    """Sample table of demands in user units; returns (df with Units row, values in SI by (type,loc,dir))."""
    cols, us, si = [], [], {}
    for e in edps:
        u = (units or {}).get(e[0]) or pick(rng, EDP_UNITS[e[0]])
        scale = SCALE[e[0]]
        v = scale * np.exp(rng.uniform(np.log(low), np.log(high), n))
        vu = np.array([sig(x, 7) for x in v / U[u]])
        cols.append('-'.join(map(str, e)))
        us.append(u)
        si[tuple(map(str, e))] = vu * U[u]
    df = pd.DataFrame({c: si[tuple(map(str, e))] / U[u] for c, e, u in zip(cols, edps, us)})
    df = df.astype(object)
    df = pd.concat([pd.DataFrame([us], columns=cols, index=['Units']), df])
    df.index = ['Units'] + [str(i) for i in range(n)]
    return df, si


SCALE = {'PFA': 4., 'PFV': 1., 'PID': .01, 'RID': .004, 'PGA': 4., 'SA': 6., 'PGV': 1., 'PWS': 40., 'PIH': 1., 'PGD': .5, 'SAX': 2., 'PFAX': 1.}


def load_demands(a, df):
    """Loads a demand sample as is (raw values, original order)."""
    a.demand.load_sample(df)
    return a.demand.sample


def calibrated(a, df, n=None, cfg=None):
    a.demand.load_sample(df)
    a.demand.calibrate_model(cfg or {'ALL': {'DistributionFamily': 'lognormal'}})
    a.demand.generate_sample({'SampleSize': n or len(df) - 1})


# ---------------------------------------------------------------- frames to plain dictionaries
def as_dict(df):
    """{column tuple of str: float array}"""
    return {tuple(map(str, c)) if isinstance(c, tuple) else (str(c),): df[c].to_numpy(dtype=float) for c in df.columns}


def strata_ok(x, ppf):
    """LHS: the sorted sample has one value in each equal-probability stratum."""
    n = len(x)
    e = ppf(np.arange(n + 1) / n)
    s = np.sort(x)
    t = 1e-9 * (1 + np.abs(s))
    return bool(np.all(s >= e[:-1] - t) and np.all(s <= e[1:] + t))


def units_file(ctx, extra):
    """A user units file: a custom file replaces the default table, so it lists all units."""
    import json
    p = ctx.tmp() / 'units.json'
    cats = {'all': {u: f for u, f in U.items()}, 'user': extra}
    p.write_text(json.dumps(cats))
    return str(p)
