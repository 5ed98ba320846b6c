"""C28: a calculation writes exactly the requested results, and every form of a result says the same."""
import hashlib
import json
import os
import subprocess
import sys
import time
import warnings
import zipfile
import io
from pathlib import Path

import numpy as np
import pandas as pd
import dlcalc
import library
import pbe
from pelicun import base

ID = 'C28'
RULE = ('seeded calculations (stories x demands x libraries x damage processes x losses) run through the command-line tool, 1-3 runs in one '
        'process or in child processes, with random output selections, formats and settings, into folders that hold unrelated files and '
        'results of other runs; the directory and every cell of every file against the samples held by the assessment')
QUICK, THOROUGH = 60, 1500
MIN_OBS = {'runs': 60, 'files': 400, 'cells': 80000, 'json': 200, 'stats': 200, 'again': 12, 'stale': 150, 'unrelated': 300, 'condensed': 8,
           'aggregated': 30, 'auto': 12, 'children': 2, 'default_outputs': 8, 'no_losses': 1, 'loss_functions': 5}
ASSUMPTIONS = ['log files may be written to the working directory; the extended configuration of an auto-populated run is written next to them']

KNOWN = ['DEM_sample.zip', 'DEM_stats.csv', 'CMP_sample.zip', 'CMP_stats.csv', 'DMG_sample.zip', 'DMG_stats.csv', 'DMG_grp.zip', 'DMG_grp_stats.csv',
         'DV_repair_sample.zip', 'DV_repair_stats.csv', 'DV_repair_grp.zip', 'DV_repair_grp_stats.csv', 'DV_repair_agg.zip', 'DV_repair_agg_stats.csv',
         'DL_summary.csv', 'DL_summary_stats.csv']
FILES = {('Demand', 'Sample'): 'DEM_sample.zip', ('Demand', 'Statistics'): 'DEM_stats.csv', ('Asset', 'Sample'): 'CMP_sample.zip',
         ('Asset', 'Statistics'): 'CMP_stats.csv', ('Damage', 'Sample'): 'DMG_sample.zip', ('Damage', 'Statistics'): 'DMG_stats.csv',
         ('Damage', 'GroupedSample'): 'DMG_grp.zip', ('Damage', 'GroupedStatistics'): 'DMG_grp_stats.csv',
         ('Loss', 'Sample'): 'DV_repair_sample.zip', ('Loss', 'Statistics'): 'DV_repair_stats.csv', ('Loss', 'GroupedSample'): 'DV_repair_grp.zip',
         ('Loss', 'GroupedStatistics'): 'DV_repair_grp_stats.csv', ('Loss', 'AggregateSample'): 'DV_repair_agg.zip',
         ('Loss', 'AggregateStatistics'): 'DV_repair_agg_stats.csv'}
PERC = [.001, .023, .10, .159, .5, .841, .90, .977, .999]
NAMES = ['count', 'mean', 'std', 'log_std', 'min', '0.1%', '2.3%', '10%', '15.9%', '50%', '84.1%', '90%', '97.7%', '99.9%', 'max']

LEAN = {'Demand': {'Sample'}, 'Asset': {'Sample'}, 'Damage': {'GroupedSample', 'GroupedStatistics'}, 'Loss': set(dlcalc.FULL['Loss'])}


def requested(config, fmt, auto=None, detailed=True):
    """Selected results, formats and settings of a run."""
    out = config['DL'].get('Outputs') if auto is None else None
    if auto is not None:
        sel = {k: set(v) for k, v in dlcalc.FULL.items()} if detailed else {k: set(v) for k, v in LEAN.items()}
        fm = {'CSV': bool(detailed), 'JSON': True}
        st = {'CondenseDS': True, 'SimpleIndexInJSON': True, 'AggregateColocatedComponentResults': True}
        o = config.get('outputs')
        if o:
            if not o['IM'] and not o['EDP']:
                sel['Demand'] = set()
            if not o['DM']:
                sel['Damage'] = set()
            if not o['DV']:
                sel['Loss'] = set()
        if not auto.get('Losses'):
            sel['Loss'] = set()
    elif not out:
        sel, fm, st = {k: set(v) for k, v in dlcalc.FULL.items()}, {'CSV': True, 'JSON': True}, None
    else:
        sel = {k: {x for x, v in (out.get(k, {}).get('Repair', {}) if k == 'Loss' else out.get(k, {})).items() if v} for k in dlcalc.FULL}
        fm, st = out.get('Format') or {'CSV': True, 'JSON': False}, out.get('Settings')
    if fmt is not None:
        fm = {'CSV': 'csv' in fmt, 'JSON': 'json' in fmt}
    st = st or {'CondenseDS': False, 'SimpleIndexInJSON': False, 'AggregateColocatedComponentResults': True}
    return sel, fm, st


def expected_files(sel, fm):
    tables = [FILES[k, x] for k in sel for x in sel[k]] + ['DL_summary.csv', 'DL_summary_stats.csv']
    files = set()
    for t in tables:
        if fm.get('CSV') or 'DL_summary' in t:
            files.add(t)
        if fm.get('JSON'):
            files.add(t[:-3] + 'json')
    return tables, files


# ---------------------------------------------------------------- reference tables: (labels, values, units)
def table(sample, units=None):
    names = list(sample.columns.names)
    return names, {tuple(str(x) for x in (c if isinstance(c, tuple) else (c,))): sample.iloc[:, i].to_numpy(dtype=float) for i, c in enumerate(sample.columns)}, \
        {tuple(str(x) for x in (c if isinstance(c, tuple) else (c,))): u for c, u in units.items()} if units is not None else None


def group(tab, keep, how='sum'):
    names, vals, units = tab
    pos = [names.index(k) for k in keep]
    out, un = {}, {}
    for c, v in vals.items():
        k = tuple(c[i] for i in pos)
        out.setdefault(k, []).append(v)
        if units is not None:
            un.setdefault(k, set()).add(units[c])
    res = {}
    for k, vs in out.items():
        m = np.array(vs)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = np.nansum(m, axis=0) if how == 'sum' else np.nanmax(m, axis=0)
        res[k] = np.where(np.isnan(m).all(axis=0), np.nan, r)
    return list(keep), res, ({k: next(iter(v)) for k, v in un.items() if len(v) == 1} if units is not None else None)


def condense(tab):
    names, vals, units = group(tab, ['cmp', 'loc', 'ds'])
    v2 = {k: np.where(np.isnan(v), np.nan, np.where(v > 0, float(k[2]), v * float(k[2]))) for k, v in vals.items()}
    return group((names, v2, units), ['cmp', 'loc'], 'max')


def stats(tab):
    names, vals, units = tab
    out = {}
    for c, v in vals.items():
        x = v[~np.isnan(v)]
        n = len(x)
        r = {'count': float(n), 'mean': x.mean() if n else np.nan, 'std': x.std(ddof=1) if n > 1 else np.nan, 'log_std': np.nan,
             'min': x.min() if n else np.nan, 'max': x.max() if n else np.nan}
        if n and x.min() > 0 and n > 1:
            r['log_std'] = np.std(np.log(x), ddof=1)
        for p, q in zip(NAMES[5:14], PERC):
            r[p] = np.quantile(x, q) if n else np.nan
        out[c] = np.array([r[k] for k in NAMES])
    return names, out, units


def references(seen, st):
    a, ref = seen['assessment'], {}
    agg = bool(st.get('AggregateColocatedComponentResults'))
    s, u = a.demand.save_sample(save_units=True)
    ref['DEM_sample.zip'] = table(s, u)
    s, u = a.asset.save_cmp_sample(save_units=True)
    t = table(s, u)
    ref['CMP_sample.zip'] = group(t, ['cmp', 'loc', 'dir']) if agg else t
    s, u = a.damage.save_sample(save_units=True)
    t = table(s, u)
    dmg = t
    t = group(t, ['cmp', 'loc', 'dir', 'ds']) if agg else t
    ref['DMG_sample.zip'] = t
    ref['DMG_grp.zip'] = condense(t) if st.get('CondenseDS') else group(t, ['cmp'])
    lo = a.loss.save_sample(save_units=True) if 'agg' in seen and a.loss.sample is not None else None
    if 'agg' in seen:
        ref['DV_repair_agg.zip'] = table(seen['agg'])
    if lo is not None:
        s, u = lo
        t = table(s, u)
        t = group(t, [x for x in t[0] if x != 'uid']) if agg else t
        ref['DV_repair_sample.zip'] = t
        ref['DV_repair_grp.zip'] = group(t, ['dv', 'loss', 'dmg'])
    for f in list(ref):
        ref[f.replace('.zip', '_stats.csv').replace('_sample_', '_')] = stats(ref[f])
    summ = {('-'.join(k),): v for k, v in ref['DV_repair_agg.zip'][1].items()} if 'agg' in seen else {}
    by = group(dmg, ['cmp', 'ds'])[1]
    n = len(s)
    for k in ('collapse', 'irreparable'):
        v = by.get((k, '1'), np.zeros(n))
        summ[k,] = np.where(np.isnan(v), 0., v)
    ref['DL_summary.csv'] = ([None], summ, None)
    ref['DL_summary_stats.csv'] = stats(ref['DL_summary.csv'])
    return ref


# ---------------------------------------------------------------- files
def read_csv(f):
    if f.suffix == '.zip':
        with zipfile.ZipFile(f) as z:
            names = z.namelist()
            text = z.read(names[0]).decode()
    else:
        names, text = None, f.read_text()
    df = pd.read_csv(io.StringIO(text), index_col=0, dtype=str, keep_default_na=False)
    return df, names


def num(x):
    return np.nan if x in ('', None, 'nan', 'NaN') else float(x)


def flatten(d, pre=()):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and not (set(v) & {'mean', 'count'}):
            out.update(flatten(v, pre + (k,)))
        else:
            out['-'.join(pre + (k,))] = v
    return out


def near(got, want, isstat):
    # (the spread of equal values is rounding)
    tol = 1e-12 * max(1e-280, abs(want[1])) if isstat and np.isfinite(want[1]) else 1e-300
    ok = np.isclose(got, want, rtol=1e-9, atol=tol, equal_nan=True)
    if isstat:
        ok[3] |= abs(got[3] - want[3]) < 1e-12
    return ok.all()


def content(ctx, folder, name, ref, fm, st, what):
    names, vals, units = ref
    isstat = 'stats' in name
    rows = NAMES if isstat else [str(i) for i in range(len(next(iter(vals.values()))))]
    want = {'-'.join(c): v for c, v in vals.items()}
    f = folder / name
    if f.exists():
        ctx.count('files')
        df, members = read_csv(f)
        if members is not None:
            ctx.check(members == [name[:-3] + 'csv'], 'zip-members', lambda: f'{what} {name}: {members}')
        has_units = units is not None
        idx = [str(x) for x in df.index]
        ok = ctx.check(idx == rows + ['Units'] * has_units, 'csv-rows', lambda: f'{what} {name}: rows {idx[:4]}..{idx[-3:]}, expected {rows[:4]}..')
        ok &= ctx.check(sorted(df.columns) == sorted(want), 'csv-columns',
                        lambda: f'{what} {name}: columns not expected {sorted(set(df.columns) - set(want))[:4]}, missing {sorted(set(want) - set(df.columns))[:4]}')
        if ok:
            for c in df.columns:
                got = np.array([num(x) for x in df[c].to_list()[:len(rows)]])
                ctx.count('cells', len(rows))
                if isstat:
                    ctx.count('stats')
                ctx.check(near(got, want[c], isstat), 'csv-values',
                          lambda: f'{what} {name} {c}: {got[:6]} expected {want[c][:6]}')
                if has_units:
                    u = units.get(tuple(c.split('-')), units.get(next(k for k in vals if '-'.join(k) == c)))
                    if u is not None:
                        ctx.check(df[c].iloc[-1] == str(u), 'csv-units', lambda: f'{what} {name} {c}: {df[c].iloc[-1]} expected {u}')
    j = folder / (name[:-3] + 'json')
    if j.exists():
        ctx.count('json')
        d = json.loads(j.read_text())
        got_units = d.pop('Units', None)
        if units is not None:
            wu = {'-'.join(k): str(u) for k, u in units.items()}
            got_units = got_units or {}
            ctx.check(all(got_units.get(k) == u for k, u in wu.items()), 'json-units', lambda: f'{what} {j.name}: {list(got_units.items())[:4]} expected {list(wu.items())[:4]}')
        if st.get('SimpleIndexInJSON'):
            flat = {k: v for k, v in d.items()}
        else:
            flat = flatten(d)
            nested = any(isinstance(v, dict) and not (set(v) & {'mean', 'count'}) for v in d.values())
            ctx.check(nested == any('-' in k and not k.endswith('-') for k in want), 'json-nesting', lambda: f'{what} {j.name}: {str(d)[:150]}')
        norm = lambda k: k.rstrip('-')   # noqa: E731
        flat, want2 = {norm(k): v for k, v in flat.items()}, {norm(k): v for k, v in want.items()}
        if ctx.check(set(flat) == set(want2), 'json-labels', lambda: f'{what} {j.name}: not expected {sorted(set(flat) - set(want2))[:4]}, missing {sorted(set(want2) - set(flat))[:4]}'):
            for k, v in flat.items():
                if isstat:
                    ok = isinstance(v, dict) and list(v) == NAMES
                    seq = [v[x] for x in NAMES] if ok else []
                else:
                    ok = isinstance(v, list) and len(v) == len(rows)
                    seq = v if ok else []
                if ctx.check(ok, 'json-form', lambda: f'{what} {j.name} {k}: {str(v)[:150]}'):
                    ok = ctx.check(all(isinstance(x, (int, float)) for x in seq), 'json-numbers', lambda: f'{what} {j.name} {k}: {seq[:4]}')
                    if ok:
                        ctx.count('cells', len(seq))
                        ctx.check(near(np.array(seq, dtype=float), want2[k], isstat), 'json-values',
                                  lambda: f'{what} {j.name} {k}: {seq[:6]} expected {want2[k][:6]}')


def tree(folder):
    out = {}
    for r, _, fs in os.walk(folder):
        for f in fs:
            p = Path(r) / f
            out[str(p.relative_to(folder))] = hashlib.sha1(p.read_bytes()).hexdigest()
    return out


def litter(rng, folder):
    """Unrelated files, and results of an earlier calculation."""
    folder.mkdir(parents=True, exist_ok=True)
    other = ['notes.txt', 'my_results.csv', 'DEM_sample.csv', 'xDMG_stats.csv', 'DMG_sample.zip.bak', 'dl_summary.csv', 'CMP_QNT_old.csv', 'results.json']
    for f in other:
        if rng.random() < .6:
            (folder / f).write_text(f'mine {f}')
    (folder / 'sub').mkdir(exist_ok=True)
    for f in ('DMG_sample.zip', 'DL_summary.csv'):
        (folder / 'sub' / f).write_text('mine')
    old = set()
    for f in KNOWN:
        for g in (f, f[:-3] + 'json'):
            if rng.random() < .3:
                (folder / g).write_text('{"old": [1]}')
                old.add(g)
    return old


LOGS = {'pelicun_log.txt', 'pelicun_log_warnings.txt'}


def one(ctx, k, folder, out, config, fmt, auto, detailed, what, child=None):
    """A run and everything it left behind."""
    rng = ctx.rng
    old = litter(rng, out) if rng.random() < .7 else set()
    (folder / 'config.json').write_text(json.dumps(config))
    before, root = tree(out), tree(folder)
    sel, fm, st = requested(config, fmt, auto, detailed)
    explicit = None if out == folder else str(out)
    if child is None:
        if auto is not None and rng.random() < .5:
            seen = dlcalc.run(folder, explicit, fmt=fmt, custom='custom', detailed=detailed, coupled=bool(rng.random() < .5), n=int(rng.integers(2, 20)))
        else:
            seen = dlcalc.run(folder, explicit, fmt=fmt, custom='custom', detailed=detailed, n=k.n)
    ctx.count('runs')
    ctx.count('stale', len(old))
    if child is None and 'agg' in seen and seen['assessment'].loss.sample is None:
        ctx.count('no_losses')
        sel['Loss'] &= {'AggregateSample', 'AggregateStatistics'}
    tables, files = expected_files(sel, fm)
    after = tree(out)
    mine = {f for f in before if f not in KNOWN and not (f[:-4] + 'csv' in KNOWN or f[:-4] + 'zip' in KNOWN)}
    extra = {'CMP_QNT.csv'} if auto is not None else set()
    extra |= LOGS | {'config_ap.json'} if out == folder else set()
    results = {f for f in after if '/' not in f and f not in mine and f not in extra}
    ctx.check(results == files, 'files', lambda: f'{what}: not requested {sorted(results - files)}, missing {sorted(files - results)} (selection {sel}, formats {fm}, detailed {detailed})')
    for f in mine:
        if f in LOGS or f in extra:
            continue
        ctx.count('unrelated')
        ctx.check(after.get(f) == before[f], 'unrelated-changed', lambda: f'{what}: {f} was {"removed" if f not in after else "changed"}')
    if out != folder:
        now = tree(folder)
        rel = os.path.relpath(out, folder)
        diff = {f for f in set(now) | set(root) if now.get(f) != root.get(f) and not f.startswith(rel + os.sep)}
        ctx.check(diff <= LOGS | ({'config_ap.json'} if auto is not None else set()), 'outside-output-folder', lambda: f'{what}: {sorted(diff)}')
    if child is None:
        ref = references(seen, st)
        for t in tables:
            content(ctx, out, t, ref[t], fm, st, what)
        ctx.count('condensed', bool(st.get('CondenseDS') and 'GroupedSample' in sel['Damage']))
        ctx.count('aggregated', bool(st.get('AggregateColocatedComponentResults')))
        ctx.observe((tuple(sorted(fm.items())), len(tables), bool(st.get('CondenseDS')), auto is not None))
    return fm




def case(ctx):
    base.pelicun_path = PACKAGE
    rng = ctx.rng
    tmp = Path(ctx.tmp())
    lib = library.use(tmp / 'lib')
    folder = tmp / 'run'
    k = dlcalc.Calc(rng, folder, lib, strong=ctx.index % 12 == 3 or None, losses=ctx.index % 12 == 3 or None)
    ctx.describe(config=k.config)
    ctx.count('loss_functions', k.has_loss and any(f'{c}-Cost' in k.lf for c in k.used))
    outs = [folder, tmp / 'out', folder / 'results' / 'deep']
    out = None
    auto = None
    if ctx.index % 20 == 7:
        return child(ctx, k, folder, tmp)
    for r in range(int(rng.integers(1, 4))):
        if out is None or rng.random() < .4:
            out = pbe.pick(rng, outs)
        else:
            ctx.count('again')
        detailed = bool(rng.random() < .6)
        auto = None
        config = k.config
        if rng.random() < .3:
            config, auto = dlcalc.automatic(rng, k, folder)
            if k.has_loss is False:
                auto.pop('Losses', None)
            ctx.count('auto')
        else:
            dl = json.loads(json.dumps(k.config))
            o = k._outputs(k.has_loss)
            dl['DL'].pop('Outputs', None)
            if o is not None and (rng.random() < .7 or not k.has_loss):
                dl['DL']['Outputs'] = o
            elif not k.has_loss:
                dl['DL']['Outputs'] = {'Damage': {'Sample': True}}
            else:
                ctx.count('default_outputs')
            config = dl
        fmt = pbe.pick(rng, [None, None, None, ['csv'], ['json'], ['csv', 'json'], [], 'csv', 'json,csv'])
        ctx.describe(**{f'run{r}': {'config': config, 'auto': auto, 'format': fmt, 'detailed': detailed, 'out': str(out)}})
        one(ctx, k, folder, out, config, fmt, auto, detailed, f'run {r}' + (' (auto)' if auto is not None else ''))


def child(ctx, k, folder, tmp):
    """The command line gives the same files as the function."""
    rng = ctx.rng
    ctx.count('children')
    lib, env = library.copy(tmp / 'site')
    import shutil
    shutil.copytree(k.lib, lib, dirs_exist_ok=True)
    cfg = json.loads(json.dumps(k.config))
    (folder / 'config.json').write_text(json.dumps(cfg))
    fmt = pbe.pick(rng, [None, 'csv', 'csv,json', 'json'])
    seen = dlcalc.run(folder, str(tmp / 'a'), fmt=fmt, custom='custom')
    cmd = [sys.executable, '-m', 'pelicun.tools.DL_calculation', '-c', 'config.json', '-d', 'response.csv', '--dirnameOutput', str(tmp / 'b'), '--custom_model_dir', 'custom']
    if fmt:
        cmd += ['--output_format', fmt]
    litter(rng, tmp / 'b')
    p = subprocess.run(cmd, cwd=folder, env=env, capture_output=True, text=True, timeout=300)
    if not ctx.check(p.returncode == 0, 'command-line', lambda: p.stderr[-600:]):
        return
    sel, fm, st = requested(cfg, fmt)
    if 'agg' in seen and seen['assessment'].loss.sample is None:
        sel['Loss'] &= {'AggregateSample', 'AggregateStatistics'}
    tables, files = expected_files(sel, fm)
    for f in files:
        ctx.count('files')
        x, y = tmp / 'a' / f, tmp / 'b' / f
        if ctx.check(x.exists() and y.exists(), 'command-line-missing', lambda: f):
            same = read_csv(x)[0].equals(read_csv(y)[0]) if f.endswith(('zip', 'csv')) else x.read_text() == y.read_text()
            ctx.check(same, 'command-line-differs', lambda: f)
    left = {f for f in tree(tmp / 'b') if '/' not in f and (f in KNOWN or f[:-4] + 'zip' in KNOWN or f[:-4] + 'csv' in KNOWN)}
    ctx.check(left == files, 'files', lambda: f'command line: not requested {sorted(left - files)}, missing {sorted(files - left)}')
    ref = references(seen, st)
    for t in tables:
        content(ctx, tmp / 'b', t, ref[t], fm, st, 'command line')


PACKAGE = base.pelicun_path
