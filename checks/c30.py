"""C30: regional results are each building's own, in building order, whatever the chunks, workers and filter."""
import contextlib
import io
import json
import os
import subprocess
import sys
import time

import numpy as np
import pandas as pd
import library
import pbe
from pelicun import base

ID = 'C30'
RULE = ('seeded regions (1-40 buildings, some above 1000 = several chunks, shuffled and sparse identifiers, 1-12 grid points, 1-3 intensity '
        'measures in any order, filters, more or fewer realizations than available, several workers) with a synthetic deterministic model '
        'library; by call, command line and separate processes; every cell of the demand, damage, cost and time tables against a per-building reference computed from the input files; '
        'filter expressions against a reference parser; '
        'configurations that cannot be followed must be rejected without results')
QUICK, THOROUGH = 90, 2500
MIN_OBS = {'cells': 4000, 'damaged': 500, 'undamaged_buildings': 20, 'filtered': 8, 'filters': 600, 'several_ims': 20, 'chunks': 3, 'workers': 1, 'repeated': 8, 'command_line': 20, 'rejections': 60}
ASSUMPTIONS = ['one component per building, as the module states; site files of equal length']

EQ, HU, FL = 'Hazus Earthquake - Buildings', 'Hazus Hurricane Wind - Buildings', 'Hazus Hurricane Storm Surge - Buildings'
IMS = {EQ: {'PGA': ('Peak Ground Acceleration', ['g', 'mps2', 'inps2']), 'SA_0.3': ('Peak Spectral Acceleration|0.3', ['g', 'mps2']),
            'SA_1.0': ('Peak Spectral Acceleration|1.0', ['g']), 'PGV': ('Peak Ground Velocity', ['mps', 'cmps'])},
       HU: {'PWS': ('Peak Gust Wind Speed', ['mph', 'mps']), 'PIH': ('Peak Inundation Height', ['ft', 'm'])}}
IMS[FL] = IMS[HU]
SC = {'PGA': 4., 'SA_0.3': 6., 'SA_1.0': 3., 'PGV': 1., 'PWS': 40., 'PIH': 1.}

SCRIPT = '''
import pandas as pd

def auto_populate(aim):
    gi = aim['GeneralInformation']
    cmp = f"{{gi['StructureType']}}.{{gi['DesignLevel']}}"
    comp = pd.DataFrame({{cmp: ['ea', '1', {direction!r}, {quantity}, 'N/A']}},
                        index=['Units', 'Location', 'Direction', 'Theta_0', 'Family']).T
    dl = {{'Losses': {{'Repair': {{'DecisionVariables': {dvs}}}}}}}
    return dict(gi), dl, comp
'''


def filters(ctx):
    """The identifiers a filter denotes."""
    from pelicun.tools.regional_sim import parse_id_filter
    rng = ctx.rng
    for _ in range(12):
        ctx.count('filters')
        parts, want, bad = [], set(), False
        for _ in range(int(rng.integers(0, 6))):
            a = int(rng.integers(0, 30))
            k = rng.random()
            sp = lambda s: ' ' * int(rng.integers(0, 2)) + s + ' ' * int(rng.integers(0, 2))  # noqa: E731
            if k < .45:
                parts.append(sp(str(a)))
                want.add(a)
            elif k < .8:
                b = a + int(rng.integers(0, 8))
                parts.append(sp(sp(str(a)) + '-' + sp(str(b))))
                want |= set(range(a, b + 1))
            elif k < .88:
                parts.append(sp(''))
            elif k < .94:
                parts.append(f'{a + 3}-{a}')
                bad = True
            else:
                parts.append(pbe.pick(rng, ['x', '3a', '2-', '-', '1-2-3', '4.5', '2-b']))
                bad = True
        s = ','.join(parts)
        try:
            got = parse_id_filter(s)
        except ValueError:
            ctx.check(bad, 'filter-rejected', repr(s))
            continue
        ctx.check(not bad, 'bad-filter-accepted', lambda: f'{s!r}: {got}')
        ctx.check(got == sorted(want), 'filter', lambda: f'{s!r}: {got} expected {sorted(want)}')


class Region:
    def __init__(self, rng, root, method, n, lib):
        self.rng, self.method, self.n = rng, method, n
        self.ims = [str(x) for x in rng.permutation(list(IMS[method]))[:int(rng.integers(1, len(IMS[method]) + 1))]]
        self.units = {im: pbe.pick(rng, IMS[method][im][1]) for im in self.ims}
        # hazard
        g = int(pbe.pick(rng, [1, 2, 5, 12]))
        self.k = int(rng.integers(1, min(g, 4) + 1))
        self.rows = int(rng.integers(1, 6))
        self.grid = np.array([[-122., 37.]]) + rng.uniform(-.5, .5, (g, 2))
        ev = root / 'event'
        ev.mkdir()
        names = [f'site_{i}.csv' for i in rng.permutation(g)]
        cols = [*self.ims, *[x for x in IMS[method] if x not in self.ims and rng.random() < .5]]
        extra = [c for c in cols if c not in self.ims]
        self.im = {}
        for i in range(g):
            t = {}
            for im in cols:
                v = SC[im] * np.exp(rng.uniform(-1.5, 1.2, self.rows)) / pbe.U[self.units.get(im, IMS[method][im][1][0])]
                t[im] = np.array([pbe.sig(x, 6) for x in v])
                self.im[i, im] = t[im]
            order = [str(c) for c in (cols if rng.random() < .5 else rng.permutation(cols))]
            pd.DataFrame(t)[order].to_csv(ev / names[i], index=False)
        grid = pd.DataFrame({'GP_file': names, 'Latitude': self.grid[:, 1], 'Longitude': self.grid[:, 0]})
        grid[list(rng.permutation(grid.columns))].to_csv(ev / 'grid.csv', index=False)
        self.ns = int(pbe.pick(rng, [1, self.rows, self.rows, self.rows + 3]))      # demand realizations
        self.nd = int(pbe.pick(rng, [self.ns, self.ns, self.ns + 2, max(1, self.ns - 1)]))
        # buildings
        ids = np.arange(n) if rng.random() < .3 else rng.choice(n * 3 + 5, n, replace=False)
        if rng.random() < .3:
            ids = np.sort(ids)
        self.ids = [int(i) for i in ids]
        occ = ['RES1', 'COM1', 'IND2', 'EDU1'][:int(rng.integers(1, 5))]
        st = ['W1', 'C2', 'URM'][:int(rng.integers(1, 4))]
        dl = ['High', 'Low'][:int(rng.integers(1, 3))]
        loc = np.array([-122., 37.]) + rng.uniform(-.6, .6, (n, 2))
        for i in range(n):
            if rng.random() < .1:
                loc[i] = self.grid[int(rng.integers(g))]
        self.loc = loc
        self.occ = [pbe.pick(rng, occ) for _ in range(n)]
        self.st = [pbe.pick(rng, st) for _ in range(n)]
        self.dlv = [pbe.pick(rng, dl) for _ in range(n)]
        self.area = [int(rng.integers(1, 4)) * 100 for _ in range(n)]
        inv = pd.DataFrame({'Latitude': loc[:, 1], 'Longitude': loc[:, 0], 'StructureType': self.st, 'OccupancyClass': self.occ,
                            'DesignLevel': self.dlv, 'PlanArea': self.area}, index=pd.Index(self.ids, name='id'))
        as_ = root / 'assets'
        as_.mkdir()
        inv[list(rng.permutation(inv.columns))].to_csv(as_ / 'inventory.csv')
        # models
        self.cmps = {}
        frag, cons = {}, {}
        harmless = rng.random() < .3
        ncmp = 0
        for s in st:
            for d in dl:
                c = f'{s}.{d}'
                im = pbe.pick(rng, self.ims)
                nl = int(rng.integers(1, 4))
                caps = np.sort(SC[im] * np.exp(rng.uniform(-1.3, 1., nl)) * (1e3 if harmless and rng.random() < .6 else 1.))
                u = pbe.pick(rng, IMS[method][im][1])
                caps = [pbe.sig(x / pbe.U[u], 9) for x in caps]
                row = {'Incomplete-': 0, 'Demand-Type': IMS[method][im][0], 'Demand-Unit': u, 'Demand-Offset': 0, 'Demand-Directional': int(rng.random() < .5)}
                row.update({f'LS{i + 1}-Theta_0': x for i, x in enumerate(caps)})
                frag[c] = row
                self.cmps[c] = (im, [x * pbe.U[u] for x in caps])
                ncmp += 1
        self.time = method == EQ or rng.random() < .5
        self.cons = {}
        for key in (['LF.' + o for o in occ] if method == EQ else list(self.cmps)):
            for dv, un in (('Cost', 'USD_2011'), ('Time', 'worker_day')):
                row = {'Incomplete-': 0, 'Quantity-Unit': '1 EA', 'DV-Unit': un}
                for ds in (1, 2, 3):
                    v = pbe.sig(10 ** rng.uniform(0, 5), 5)
                    row[f'DS{ds}-Theta_0'] = v
                    self.cons[key, dv, ds] = v
                cons[f'{key}-{dv}'] = row
        self.qty = rng.random() < .3
        frag, cons = pd.DataFrame.from_dict(frag, orient='index'), pd.DataFrame.from_dict(cons, orient='index')
        frag.index.name = cons.index.name = 'ID'
        library.add(lib, method, 'fragility.csv', frag)
        library.add(lib, method, 'consequence_repair.csv', cons)
        library.add(lib, method, 'pelicun_config.py', SCRIPT.format(
            direction=pbe.pick(rng, ['1', 1]), quantity="gi['PlanArea'] / 100." if self.qty else 1, dvs={'Cost': True, 'Carbon': False, 'Time': bool(self.time)}))
        app = {'pathToSource': str(as_), 'assetSourceFile': 'inventory.csv'}
        self.keep = list(self.ids)
        if rng.random() < .3:
            sub = sorted(int(x) for x in rng.choice(self.ids, int(rng.integers(1, n + 1)), replace=False))
            runs, parts = [], []
            for x in sub:
                if runs and runs[-1][1] == x - 1:
                    runs[-1][1] = x
                else:
                    runs.append([x, x])
            for a, b in runs:
                parts += [f'{a}-{b}'] if b > a and rng.random() < .7 else [str(v) for v in range(a, b + 1)]
            app['filter'] = ', '.join(parts[i] for i in rng.permutation(len(parts)))
            self.keep = sub
        elif rng.random() < .3:
            app['filter'] = ''
        self.config = {'Applications': {
            'RegionalMapping': {'Buildings': {'ApplicationData': {'samples': self.ns, 'neighbors': self.k}}},
            'DL': {'Buildings': {'ApplicationData': {'Realizations': self.nd, 'DL_Method': method}}},
            'Assets': {'Buildings': {'ApplicationData': app}}},
            'RegionalEvent': {'units': self.units, 'eventFilePath': str(ev), 'eventFile': 'grid.csv'}}
        self.file = root / 'config.json'
        self.file.write_text(json.dumps(self.config))

    def reference(self, bid):
        i = self.ids.index(bid)
        d = np.sqrt(((self.grid - self.loc[i]) ** 2).sum(axis=1))
        o = np.argsort(d, kind='stable')[:self.k]
        w = 1 / (d[o] + 1e-20) ** 2
        w = w / w.sum()
        dem = {im: np.array([sum(wj * self.im[j, im][r % self.rows] for wj, j in zip(w, o)) for r in range(self.ns)]) for im in self.ims}
        c = f'{self.st[i]}.{self.dlv[i]}'
        im, caps = self.cmps[c]
        x = dem[im][np.arange(self.nd) % self.ns] * pbe.U[self.units[im]]
        ds = np.sum([x > cap for cap in caps], axis=0)
        near = np.min([abs(x / cap - 1) for cap in caps], axis=0) < 1e-9
        key = f'LF.{self.occ[i]}' if self.method == EQ else c
        q = self.area[i] / 100. if self.qty else 1.
        loss = {dv: np.array([q * self.cons[key, dv, s] if s else 0. for s in ds.tolist()]) for dv in ('Cost', 'Time')}
        return dem, ds, loss, near


def case(ctx):
    rng = ctx.rng
    filters(ctx)
    big = ctx.index % 30 == 7
    workers = ctx.index % 45 == 11
    method = pbe.pick(rng, [EQ, EQ, HU, HU, FL])
    n = int(rng.integers(1001, 1040)) if big else int(pbe.pick(rng, [1, 2, 5, 12, 40]))
    root = ctx.tmp()
    old = base.pelicun_path
    try:
        if workers:
            lib, env = library.copy(ctx.tmp())
        else:
            lib = library.use(ctx.tmp())
        R = Region(rng, root, method, n, lib)
        ctx.describe(method=method, buildings=n, ids=R.ids[:10], ims=R.units, neighbors=R.k, grid=len(R.grid), rows=R.rows, demand_samples=R.ns,
                     realizations=R.nd, filter=R.config['Applications']['Assets']['Buildings']['ApplicationData'].get('filter'), quantities=R.qty)
        out = root / 'out'
        out.mkdir()
        if workers:
            ctx.count('workers')
            how = pbe.pick(rng, [['-c', f'from pelicun.tools.regional_sim import regional_sim; regional_sim({str(R.file)!r}, num_cores=3)'],
                                 ['-m', 'pelicun', 'regional_sim', str(R.file), '-n', '3'], ['-m', 'pelicun.cli', 'regional_sim', '--num-cores', '2', str(R.file)]])
            r = subprocess.run([sys.executable, '-B', *how],
                               cwd=out, env=env, capture_output=True, text=True, check=False)
            if not ctx.check(r.returncode == 0, 'failed', r.stderr[-1500:]):
                return
        else:
            os.chdir(out)
            simulate(ctx, R)
        ctx.count('chunks', big)
        verify(ctx, R, out)
        if not workers and not big and rng.random() < .5:
            rejected(ctx, R, root)
    finally:
        base.pelicun_path = old


def simulate(ctx, R, file=None):
    """The simulation by a call or by the command line, in this process."""
    from pelicun import cli
    from pelicun.tools.regional_sim import regional_sim
    file = str(file or R.file)
    quiet = (contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()))
    with quiet[0], quiet[1]:
        if ctx.rng.random() < .5:
            regional_sim(file, num_cores=1)
            return
        ctx.count('command_line')
        args = ['regional_sim', file, *pbe.pick(ctx.rng, [['-n', '1'], ['--num-cores', '1']])]
        if ctx.rng.random() < .3:
            os.symlink(file, 'inputRWHALE.json')
            args.remove(file)
        old, sys.argv = sys.argv, ['pelicun', *args]
        try:
            cli.main()
        finally:
            sys.argv = old


def rejected(ctx, R, root):
    """A configuration that cannot be followed leaves no results."""
    rng = ctx.rng
    edits = {'no units': lambda c: c['RegionalEvent'].pop('units'), 'no intensity measures': lambda c: c['RegionalEvent'].update(units={}),
             'unknown intensity measure': lambda c: c['RegionalEvent']['units'].update({'PXX': 'g'}),
             'unknown building': lambda c: c['Applications']['Assets']['Buildings']['ApplicationData'].update(filter=f'{R.ids[0]}, {max(R.ids) + int(rng.integers(1, 9))}'),
             'range beyond the inventory': lambda c: c['Applications']['Assets']['Buildings']['ApplicationData'].update(filter=f'{max(R.ids)}-{max(R.ids) + 1}'),
             'bad filter': lambda c: c['Applications']['Assets']['Buildings']['ApplicationData'].update(filter=pbe.pick(rng, ['a', '3-', '1,,x', '5-2', '1-2-3']))}
    for k in [str(x) for x in rng.permutation(list(edits))[:3]]:
        c = json.loads(json.dumps(R.config))
        edits[k](c)
        out = ctx.tmp()
        f = out / 'bad.json'
        f.write_text(json.dumps(c))
        os.chdir(out)
        ctx.count('rejections')
        try:
            simulate(ctx, R, f)
        except ValueError as e:
            ctx.check(len(str(e)) > 10, 'rejected-without-reason', k)
        else:
            ctx.check(False, 'invalid-accepted', lambda: f'{k}: {c["RegionalEvent"]["units"]} {c["Applications"]["Assets"]}')
        left = [x.name for x in out.iterdir() if x.suffix == '.csv']
        ctx.check(not left, 'results-of-rejected-configuration', lambda: f'{k}: {left}')


def verify(ctx, R, out):
    keep = R.keep
    ctx.count('filtered', keep != R.ids)
    ctx.count('several_ims', len(R.ims) > 1)
    ctx.count('repeated', R.nd > R.rows)
    files = sorted(p.name for p in out.iterdir() if p.suffix == '.csv')
    want = ['damage.csv', 'demand.csv', 'repair_costs.csv'] + (['repair_times.csv'] if R.time else [])
    if not ctx.check(files == want, 'files', lambda: f'{files} instead of {want}'):
        return
    T = {f[:-4]: pd.read_csv(out / f, index_col=0) for f in files}
    order = [b for b in R.ids if b in set(keep)]
    for f in T:
        if f != 'demand':
            got = [int(x) for x in T[f].index]
            if not ctx.check(got in (order, sorted(order)) if keep != R.ids else got == order, 'building-order', lambda: f'{f}: {got[:8]} expected {order[:8]}'):
                return
            if not ctx.check(T[f].shape[1] == R.nd, 'realizations', lambda: f'{f}: {T[f].shape[1]} realizations instead of {R.nd}'):
                return
    dem = T['demand']
    cols = [f'{im}-{b}-1' for b in order for im in R.ims]
    if not ctx.check(sorted(dem.columns) == sorted(cols), 'demand-columns', lambda: f'{list(dem.columns)[:5]} expected {cols[:5]}'):
        return
    if keep == R.ids:
        ctx.check(list(dem.columns) == cols, 'demand-order', lambda: f'{list(dem.columns)[:5]} expected {cols[:5]}')
    ctx.check(dem.loc['Units'].to_dict() == {f'{im}-{b}-1': R.units[im] for b in order for im in R.ims}, 'demand-units', lambda: str(dem.loc['Units'].to_dict())[:300])
    dem = dem.drop(index='Units').astype(float)
    for b in order:
        d, ds, loss, near = R.reference(b)
        for im in R.ims:
            ctx.close(dem[f'{im}-{b}-1'], d[im], 'demand', f'building {b} {im}', rtol=1e-7)
        ok = ~near
        ctx.count('cells', R.nd)
        ctx.count('damaged', int((ds > 0).sum()))
        ctx.count('undamaged_buildings', int((ds == 0).all()))
        ctx.close(T['damage'].loc[b].to_numpy(float)[ok], ds[ok], 'damage', f'building {b} ({R.st[R.ids.index(b)]}.{R.dlv[R.ids.index(b)]})')
        ctx.close(T['repair_costs'].loc[b].to_numpy(float)[ok], loss['Cost'][ok], 'cost', f'building {b}', rtol=1e-6)
        if R.time:
            ctx.close(T['repair_times'].loc[b].to_numpy(float)[ok], loss['Time'][ok], 'time', f'building {b}', rtol=1e-6)
    tot = sum(R.reference(b)[2]['Cost'].sum() for b in order[:50])
    ctx.observe(R.method[:8], len(R.ims), R.k, R.rows, R.ns > R.rows, R.nd > R.ns, keep != R.ids, tot > 0, R.qty, R.time)
