"""C10: index and table conversions are lossless."""
import argparse
import json

import numpy as np
import pandas as pd
import pbe

ID = 'C10'
RULE = ('seeded labels (regular and ragged, one to six levels, texts, numbers, repeated) and tables converted between hyphenated and '
        'multi-level form in both directions, on either axis, in place or not; clean-up helpers compared with models cell by cell; '
        'tables with units and missing values saved and loaded again; inputs compared before and after')
QUICK, THOROUGH = 500, 25000
MIN_OBS = {'round_trips': 500, 'ragged': 60, 'inplace': 100, 'factors': 120, 'deduped': 250, 'converted_columns': 200, 'na_cells': 300,
           'parsed': 2000, 'saved': 150, 'loaded_tables': 200}
ASSUMPTIONS = ['labels without hyphens inside a level']

WORDS = ['PFA', 'PID', '1', '2', '10', '0', 'B.10.41', 'A b', 'SA_0.5', 'Cost', 'é', 'x/y', '*', 'DS1', '1.5', 'nan', 'None']


def word(rng):
    return pbe.pick(rng, WORDS) if rng.random() < .7 else ''.join(rng.choice(list('abcXYZ0189._ '), int(rng.integers(1, 6))))


def case(ctx):
    labels(ctx)
    [factors, dedupe, dtypes, nas, scalars][ctx.index % 5](ctx)
    if ctx.index % 2:
        files(ctx)


def frame(rng, rows, cols):
    v = rng.normal(size=(rows, cols))
    df = pd.DataFrame(v)
    for c in range(cols):
        r = rng.random()
        if r < .2:
            df[c] = rng.integers(0, 9, rows)
        elif r < .4:
            df[c] = pd.Series([pbe.pick(rng, ['a', '', 'x-y', None]) for _ in range(rows)], dtype=object)
    return df


def equal(a, b):
    return a.equals(b) and list(a.index.names) == list(b.index.names) and list(a.columns.names) == list(b.columns.names) and a.dtypes.equals(b.dtypes)


def labels(ctx):
    from pelicun import base
    rng = ctx.rng
    lv, n = int(rng.integers(1, 7)), int(rng.choice([1, 1, 2, 5, 30]))
    tup = [tuple(word(rng) for _ in range(lv)) for _ in range(n)]
    if n > 1 and rng.random() < .3:
        tup[-1] = tup[0]
    axis = int(rng.integers(0, 2))
    ragged = lv > 1 and rng.random() < .3
    if ragged:
        tup = [t[:int(rng.integers(1, lv + 1))] for t in tup]
        ctx.count('ragged')
    flat = ['-'.join(t) for t in tup]
    deep = max(len(t) for t in tup)
    other = int(rng.integers(1, 4))
    df = frame(rng, n if axis == 0 else other, other if axis == 0 else n)
    ser = axis == 0 and rng.random() < .3
    if ser:
        df = df[0].rename('s')
    simple = df.copy()
    if axis == 0:
        simple.index = pd.Index(flat)
    else:
        simple.columns = pd.Index(flat)
    ctx.describe(labels=flat, axis=axis, ragged=ragged, series=ser)
    ix = lambda x: x.index if axis == 0 else x.columns  # noqa: E731
    values = lambda x: pickled(x)  # noqa: E731
    inplace = bool(rng.random() < .4)
    ctx.count('inplace', inplace)
    keep = simple.copy()
    multi = base.convert_to_MultiIndex(simple, axis=axis, inplace=inplace)
    if not inplace:
        ctx.check(list(ix(simple)) == flat and ix(simple).nlevels == 1 and values(simple) == values(keep), 'input-changed', 'convert_to_MultiIndex changed its input')
    elif deep > 1:
        ctx.check(multi is simple, 'inplace', 'not converted in place')
    want = [t + ('',) * (deep - len(t)) for t in tup]
    got = [tuple(x) if isinstance(x, tuple) else (x,) for x in ix(multi)]
    ctx.check(got == want and ix(multi).nlevels == deep, 'to-multi', lambda: f'{flat[:4]} became {got[:4]} expected {want[:4]}')
    ctx.check(values(multi) == values(df), 'values', 'convert_to_MultiIndex changed the values or the other axis')
    again = base.convert_to_MultiIndex(multi, axis=axis)
    ctx.check(list(ix(again)) == list(ix(multi)), 'idempotent', 'multi-level labels changed when converted again')
    names = None
    if deep > 1 and rng.random() < .5:
        names = [f'L{i}' for i in range(deep)]
        ix(multi).names = names
    ctx.count('round_trips')
    inplace = bool(rng.random() < .4)
    ctx.count('inplace', inplace)
    keep = multi.copy()
    back = base.convert_to_SimpleIndex(multi, axis=axis, inplace=inplace)
    if not inplace:
        ctx.check(ix(multi).equals(ix(keep)) and values(multi) == values(keep), 'input-changed', 'convert_to_SimpleIndex changed its input')
    else:
        ctx.check(back is multi, 'inplace', 'not converted in place')
    wf = ['-'.join(t) for t in want]
    ctx.check(list(map(str, ix(back))) == wf and ix(back).nlevels == 1, 'to-simple', lambda: f'{want[:4]} became {list(ix(back))[:4]}')
    ctx.check(values(back) == values(df), 'values', 'convert_to_SimpleIndex changed the values or the other axis')
    if names:
        ctx.check(ix(back).name == '-'.join(names), 'names', lambda: f'name {ix(back).name}')
    # numbers as levels
    if axis == 0 and not ser:
        m = df.copy()
        num = [(int(rng.integers(0, 99)), word(rng)) for _ in range(n)]
        m.index = pd.MultiIndex.from_tuples(num, names=['a', None])
        s = base.convert_to_SimpleIndex(m)
        ctx.check(list(s.index) == [f'{a}-{b}' for a, b in num] and s.index.name == 'a-', 'to-simple', 'numeric levels')
        r = base.convert_to_MultiIndex(s)
        ctx.check(list(r.index) == [(str(a), b) for a, b in num], 'to-multi', 'numeric levels')
        ctx.count('round_trips')
    # nothing to convert
    e = pd.DataFrame(columns=[] if axis else ['a'], index=['r'] if axis else [])
    e2 = base.convert_to_SimpleIndex(base.convert_to_MultiIndex(e, axis=axis), axis=axis)
    ctx.check(e2.shape == e.shape, 'empty', 'an empty table changed')
    for f in (base.convert_to_MultiIndex, base.convert_to_SimpleIndex):
        try:
            f(df if not ser else df.to_frame(), axis=2)
            ctx.violate('axis', 'invalid axis accepted')
        except ValueError:
            pass
    ctx.observe('labels', lv, axis, ragged, ser, min(n, 3))


def pickled(x):
    """Cells in order."""
    return repr([[type(v).__name__ + repr(v) for v in row] for row in (x.to_numpy().tolist() if x.ndim > 1 else [x.tolist()])])


def factors(ctx):
    from pelicun import base
    rng = ctx.rng
    n, lv = int(rng.integers(1, 12)), int(rng.integers(1, 5))
    tup = [tuple(pbe.pick(rng, ['A', 'B', '1', '2', '10']) for _ in range(lv)) for _ in range(n)]
    names = [f'L{i}' for i in range(lv)]
    ix = pd.MultiIndex.from_tuples(tup, names=names)
    axis = int(rng.integers(0, 2))
    v = rng.normal(size=(n, 3))
    if rng.random() < .3:
        v[0, 0] = np.nan
    df = pd.DataFrame(v, index=ix) if axis == 0 else pd.DataFrame(v.T, columns=ix)
    for _ in range(int(rng.integers(1, 4))):
        base_row = tup[rng.integers(n)] if rng.random() < .8 else tuple(pbe.pick(rng, ['A', 'zz', '3']) for _ in range(lv))
        cond = {names[i]: base_row[i] for i in rng.permutation(lv)[:rng.integers(0, lv + 1)]}
        f = float(pbe.pick(rng, [2., 0., .5, -1.]))
        mask = np.array([all(t[int(k[1:])] == x for k, x in cond.items()) for t in tup])
        ctx.describe(labels=tup, conditions=cond, factor=f, axis=axis)
        before = df.to_numpy(float).copy()
        strict = bool(rng.random() < .7)
        try:
            base.multiply_factor_multiple_levels(df, cond, f, axis=axis, raise_missing=strict)
            ctx.check(mask.any() or not strict, 'missing-accepted', f'no label matches {cond}')
        except ValueError:
            ctx.check(strict and not mask.any(), 'rejected', f'labels matching {cond} exist')
        w = before.copy()
        if axis == 0:
            w[mask] *= f
        else:
            w[:, mask] *= f
        ctx.count('factors')
        ctx.close(df.to_numpy(float), w, 'factor', f'{cond} x {f}', rtol=1e-12, atol=0)
        got = df.index if axis == 0 else df.columns
        ctx.check(list(got) == list(ix) and list(got.names) == names, 'factor-labels', 'labels changed')
        ctx.observe('factor', lv, len(cond), axis, strict, int(mask.sum()) > 1)
    # whole numbers
    d = pd.DataFrame({'a': np.arange(n), 'b': v[:, 1]}, index=ix)
    try:
        base.multiply_factor_multiple_levels(d, {}, 2.)
        ctx.close(d['a'], 2. * np.arange(n), 'factor', 'whole numbers')
    except TypeError as e:
        ctx.violate('factor', f'{e!r}')
    try:
        base.multiply_factor_multiple_levels(df, {}, 2., axis=2)
        ctx.violate('axis', 'invalid axis accepted')
    except ValueError:
        pass


def dedupe(ctx):
    from pelicun import base
    rng = ctx.rng
    n, lv = int(rng.integers(1, 15)), int(rng.integers(1, 4))
    tup = [tuple(pbe.pick(rng, ['A', 'B', '1', '2']) for _ in range(lv)) for _ in range(n)]
    names = [f'L{i}' for i in range(lv)]
    df = pd.DataFrame({'x': np.arange(n), 'y': [f'r{i}' for i in range(n)]}, index=pd.MultiIndex.from_tuples(tup, names=names))
    keep = df.copy()
    dt = pbe.pick(rng, [str, int])
    ctx.describe(labels=tup)
    out = base.dedupe_index(df, dt) if dt is int or rng.random() < .5 else base.dedupe_index(df)
    ctx.count('deduped', n)
    ctx.check(equal(df, keep), 'input-changed', 'dedupe_index changed its input')
    seen, want = {}, {}
    for i, t in enumerate(tup):
        want[t + (dt(seen.get(t, 0)),)] = i
        seen[t] = seen.get(t, 0) + 1
    ctx.check(list(out.index.names) == [*names, 'uid'] and list(out.columns) == ['x', 'y'], 'dedupe-names', lambda: f'{out.index.names}')
    got = {k: (r.x, r.y) for k, r in zip(out.index, out.itertuples())}
    ctx.check(len(out) == n and got == {k: (i, f'r{i}') for k, i in want.items()}, 'dedupe', lambda: f'got {got}')
    ctx.check(list(out.index) == sorted(want), 'dedupe-order', 'not sorted')
    ctx.observe('dedupe', lv, dt.__name__, max(seen.values()))


def isnum(x):
    try:
        float(x)
        return not isinstance(x, bool)
    except (TypeError, ValueError):
        return False


def dtypes(ctx):
    from pelicun import base
    rng = ctx.rng
    n = int(rng.integers(1, 8))
    kinds, cols = [], {}
    for i in range(int(rng.integers(1, 6))):
        k = pbe.pick(rng, ['num', 'numtext', 'text', 'mixed', 'none', 'nonenum', 'bool', 'int'])
        x = rng.normal(size=n)
        c = {'num': list(x), 'numtext': [repr(float(v)) for v in x], 'text': [pbe.pick(rng, ['a', 'm', 'g', '1|2', '1,2']) for _ in x],
             'mixed': [v if rng.random() < .5 else 'kg' for v in x[:-1]] + ['kg'], 'none': [None] * n,
             'nonenum': [None if rng.random() < .5 else repr(float(v)) for v in x], 'bool': [bool(v > 0) for v in x], 'int': [int(v * 10) for v in x]}[k]
        kinds.append(k)
        cols[f'c{i}'] = c
    df = pd.DataFrame(cols, dtype=object if rng.random() < .5 else None)
    keep = df.copy()
    ctx.describe(table={k: repr(v) for k, v in cols.items()})
    out = base.convert_dtypes(df)
    ctx.check(equal(df, keep), 'input-changed', 'convert_dtypes changed its input')
    ctx.check(list(out.columns) == list(df.columns) and list(out.index) == list(df.index), 'dtypes-labels', 'labels changed')
    for (c, v), k in zip(cols.items(), kinds):
        ctx.count('converted_columns')
        o = out[c]
        if k in ('num', 'numtext', 'nonenum', 'int', 'none'):
            ctx.check(pd.api.types.is_numeric_dtype(o), 'dtypes', f'{k} column {v} has type {o.dtype}')
            ctx.close(pd.to_numeric(o), [np.nan if x is None else float(x) for x in v], 'dtypes', f'{k} column', rtol=1e-12, atol=0)
        elif k == 'bool':
            ctx.check([bool(x) for x in o] == v, 'dtypes', f'{k} column {v} became {list(o)}')
        else:
            ctx.check([x for x in o] == [np.nan if x is None else x for x in v], 'dtypes', f'{k} column {v} became {list(o)}')
    ctx.observe('dtypes', tuple(sorted(set(kinds))))


NA = ['', 'N/A', '-1.#QNAN', 'null', 'None', '<NA>', 'nan', '-NaN', '1.#IND', 'NaN', '#NA', '1.#QNAN', 'NULL', '-nan', '#N/A', '#N/A N/A', 'n/a', '-1.#IND', 'NA']
NOT = ['na', ' ', 'NONE', 'Null', '-', '0', 'missing', 'N/A ', 'NaN1', 0, False, 1.5, 'x']


def nas(ctx):
    from pelicun import base
    rng = ctx.rng
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    cells = [[pbe.pick(rng, NA) if rng.random() < .5 else pbe.pick(rng, [*NOT, None]) for _ in range(m)] for _ in range(n)]
    df = pd.DataFrame(cells, dtype=object)
    if rng.random() < .4:
        df.columns = pd.MultiIndex.from_tuples([('a', str(i)) for i in range(m)])
    keep = df.copy()
    out = base.with_parsed_str_na_values(df)
    ctx.check(equal(df, keep), 'input-changed', 'with_parsed_str_na_values changed its input')
    ctx.check(out.shape == df.shape and list(out.columns) == list(df.columns), 'na-labels', 'labels changed')
    for i in range(n):
        for j in range(m):
            x, y = cells[i][j], out.iloc[i, j]
            ctx.count('na_cells')
            na = isinstance(x, str) and x in NA
            ok = pd.isna(y) if na or x is None else (y == x and isinstance(y, str) == isinstance(x, str))
            ctx.check(ok, 'na', lambda: f'{x!r} became {y!r}')
            ctx.check(bool(base.check_if_str_is_na(x)) == na, 'na', lambda: f'check_if_str_is_na({x!r})')
    ctx.observe('na', n, m)


def scalars(ctx):
    from pelicun import base
    rng = ctx.rng
    for _ in range(20):
        s = pbe.pick(rng, ['1', '1.5', '-2', '1e3', 'abc', '', ' 7 ', 'nan', 'inf', '0x1', '1,5', '١'])
        ctx.count('parsed', 2)
        for f, g in ((base.float_or_None, float), (base.int_or_None, int)):
            try:
                w = g(s)
            except ValueError:
                w = None
            r = f(s)
            ctx.check(repr(r) == repr(w), 'parse', lambda: f'{f.__name__}({s!r}) = {r!r}')
        t = pbe.pick(rng, ['yes', 'True', 'TRUE', 't', 'y', '1', 'no', 'False', 'f', 'N', '0', 'maybe', '2', '', True, False])
        ctx.count('parsed')
        w = t if isinstance(t, bool) else {'yes': True, 'true': True, 't': True, 'y': True, '1': True, 'no': False, 'false': False, 'f': False, 'n': False, '0': False}.get(t.lower())
        try:
            ctx.check(base.str2bool(t) is w, 'parse', lambda: f'str2bool({t!r})')
        except argparse.ArgumentTypeError:
            ctx.check(w is None, 'parse', lambda: f'str2bool({t!r}) raised')
    # mappings
    d = {f'k{i}': [word(rng) for _ in range(int(rng.integers(0, 4)))] for i in range(int(rng.integers(0, 5)))}
    allv = [v for l in d.values() for v in l]
    try:
        inv = base.invert_mapping(d)
        ctx.check(len(set(allv)) == len(allv) and inv == {v: k for k, l in d.items() for v in l}, 'invert', lambda: f'{d} became {inv}')
    except ValueError:
        ctx.check(len(set(allv)) < len(allv), 'invert', lambda: f'{d} rejected')
    pairs = [(word(rng), i) for i in range(int(rng.integers(0, 6)))]
    text = '{' + ','.join(f'{json.dumps(k)}: {v}' for k, v in pairs) + '}'
    dup = len({k for k, _ in pairs}) < len(pairs)
    try:
        r = json.loads(text, object_pairs_hook=base.dict_raise_on_duplicates)
        ctx.check(not dup and r == dict(pairs), 'duplicates', lambda: f'{text} gives {r}')
    except ValueError:
        ctx.check(dup, 'duplicates', lambda: f'{text} rejected')
    # interpolation between the listed points
    k = int(rng.integers(2, 7))
    x = np.cumsum(rng.uniform(.1, 2, k))
    y = rng.normal(size=k)
    o = rng.permutation(k) if rng.random() < .3 else np.arange(k)
    f = base.stringterpolation(','.join(repr(float(v)) for v in y[o]) + '|' + ','.join(repr(float(v)) for v in x[o]))
    q = np.concatenate([x, rng.uniform(x[0], x[-1], 20)])
    ctx.close(f(q), np.interp(q, x, y), 'interpolation', 'between points', rtol=1e-9, atol=1e-12)
    name = '.'.join(str(rng.integers(9)) for _ in range(int(rng.integers(1, 4))))
    ext = pbe.pick(rng, ['.csv', '.json', ''])
    p = pbe.pick(rng, ['', '/a/b.c/', 'x/']) + 'f' + name.replace('.', '_' if not ext else '.') + ext
    ctx.check(base.split_file_name(p) == ('f' + name.replace('.', '_' if not ext else '.'), ext), 'file-name', lambda: f'{p}: {base.split_file_name(p)}')


def files(ctx):
    """A table with units survives a file."""
    from pathlib import Path
    from pelicun import base, file_io
    rng = ctx.rng
    tab = {u: pbe.U[u] for u in ('m', 'ft', 'in', 'g', 'kg', 'ea', 'ft2', 'cm')}
    tab['odd'] = 3.7
    lv, n = int(rng.integers(1, 4)), int(rng.integers(1, 8))
    k = int(rng.integers(1, 6))
    tup = sorted({tuple(word(rng).strip() or 'q' for _ in range(lv)) for _ in range(k)})
    if lv == 1:
        # a column of numbers would be read as such
        tup = [('c' + t[0],) for t in tup]
    flat = ['-'.join(t) for t in tup]
    k = len(tup)
    ix = pd.MultiIndex.from_tuples(tup) if lv > 1 else pd.Index([t[0] for t in tup])
    units = pd.Series([pbe.pick(rng, list(tab)) for _ in tup], index=ix, name='Units')
    fac = np.array([tab[u] for u in units])
    v = rng.normal(size=(n, k)) * 10 ** rng.uniform(-4, 4, k)
    v[rng.random(v.shape) < .15] = np.nan
    orient = int(rng.integers(0, 2))
    p = ctx.tmp() / 'table.csv'
    ctx.describe(labels=flat, units=list(units), orientation=orient)
    if orient == 0:
        df = pd.DataFrame(v, columns=ix)
    else:
        df = pd.DataFrame(v.T, index=ix, columns=[f'v{i:02d}' for i in range(n)])
        df['Family'] = [pbe.pick(rng, ['normal', 'x', None]) for _ in tup]
    keep, ku = df.copy(), units.copy()
    give = bool(rng.random() < .8)
    with_units = {'units': units, 'unit_conversion_factors': tab, 'orientation': orient} if give else {'orientation': orient}
    r = file_io.save_to_csv(df, p, **with_units)
    mem = file_io.save_to_csv(df, None, **with_units)
    ctx.check(r is None and equal(df, keep) and units.equals(ku), 'input-changed', 'save_to_csv changed its input')
    ctx.count('saved')
    raw = pd.read_csv(p, index_col=0, keep_default_na=False, dtype=str)
    hdr = raw.columns if orient == 0 else raw.index
    ctx.check(sorted(map(str, hdr)) == sorted(flat), 'file-labels', lambda: f'{list(hdr)} for {flat}')
    if give:
        line = raw.loc['Units'] if orient == 0 else raw['Units']
        ctx.check([line.iloc[list(map(str, hdr)).index(f)] for f in flat] == list(units), 'file-units', lambda: f'{list(line)}')
    body = raw.drop(index='Units') if orient == 0 and give else raw.drop(columns=[c for c in ('Units', 'Family') if c in raw.columns]).T if orient else raw
    for j, f in enumerate(flat):
        x = np.array([float(s) if s else np.nan for s in body.iloc[:, list(map(str, body.columns)).index(f)]])
        ctx.close(x * (fac[j] if give else 1), v[:, j], 'file-values', f, rtol=1e-12, atol=0)
    for src in (str(p), mem):
        k2 = src.copy() if isinstance(src, pd.DataFrame) else None
        out, u = file_io.load_data(src, tab, orient, reindex=orient == 0, return_units=True)
        if k2 is not None:
            ctx.check(k2.equals(src), 'input-changed', 'load_data changed its input')
        ctx.count('loaded_tables')
        o = out if orient == 0 else out.drop(columns='Family').T
        if orient:
            ctx.check([(a if isinstance(a, str) else None) for a in out['Family']] == [keep['Family'].iloc[flat.index('-'.join(x) if isinstance(x, tuple) else str(x))] for x in out.index],
                      'text-column', lambda: f'{list(out["Family"])}')
        got = ['-'.join(map(str, c)) if isinstance(c, tuple) else str(c) for c in o.columns]
        if not ctx.check(sorted(got) == sorted(flat), 'loaded-labels', lambda: f'{got} expected {flat}'):
            return
        for j, f in enumerate(flat):
            ctx.close(o.iloc[:, got.index(f)].to_numpy(float), v[:, j], 'loaded-values', f, rtol=1e-12, atol=0)
        if give:
            ud = {'-'.join(map(str, c)) if isinstance(c, tuple) else str(c): x for c, x in u.items()}
            ctx.check(ud == dict(zip(flat, units)), 'loaded-units', lambda: f'{ud}')
        else:
            ctx.check(u is None, 'loaded-units', 'units from nowhere')
    ctx.observe('file', lv, orient, give, min(n, 2))
