"""Command-line calculations: random problems in scratch folders, and the equivalent direct API calls."""
import contextlib
import io
import json
import os
from pathlib import Path

import numpy as np
import pandas as pd

import library
import pbe

P58, SC = 'FEMA P-58', 'SimCenter Wind Component Library'
LU = {'m': 'm', 'ft': 'ft', 'in': 'inch', 'inch': 'inch'}
NAMES = {'PFA': 'Peak Floor Acceleration', 'PID': 'Peak Interstory Drift Ratio', 'PFV': 'Peak Floor Velocity', 'PGA': 'Peak Ground Acceleration',
         'SA': 'Peak Spectral Acceleration'}
KIND = {'PFA': 'a', 'PGA': 'a', 'SA': 'a', 'PFV': 'v', 'PGV': 'v', 'PID': 'u', 'RID': 'u', 'PGD': 'd', 'PIH': 'd', 'PWS': 'v',
        'SV': 'v', 'SD': 'd', 'PFD': 'd', 'PRD': 'u', 'DWD': 'u', 'RDR': 'u', 'PMD': 'u'}
SCALE = {'PFA': 4., 'PFV': .6, 'PID': .01, 'PGA': 4., 'SA': 5., 'RID': .003}
DV = {'Cost': 'USD_2011', 'Time': 'worker_day', 'Carbon': 'kg', 'Energy': 'MJ'}
FULL = {'Demand': ['Sample', 'Statistics'], 'Asset': ['Sample', 'Statistics'],
        'Damage': ['Sample', 'Statistics', 'GroupedSample', 'GroupedStatistics'],
        'Loss': ['Sample', 'Statistics', 'GroupedSample', 'GroupedStatistics', 'AggregateSample', 'AggregateStatistics']}


def units_of(edp, length):
    k = KIND[edp.split('_')[0]]
    u = LU[length]
    return {'a': f'{u}ps2', 'v': f'{u}ps', 'd': u, 'u': 'unitless'}[k]


class Calc:
    """A calculation: writes its input files to a folder (run from there)."""

    def __init__(self, rng, folder, lib, losses=None, outputs=True, n=None, strong=None):
        self.rng, self.folder, self.lib = rng, Path(folder), lib
        self.folder.mkdir(parents=True, exist_ok=True)
        self.S = int(rng.integers(1, 4))
        self.dirs = int(rng.integers(1, 3))
        self.length = pbe.pick(rng, list(LU))
        self.n = n or int(pbe.pick(rng, [1, 5, 12, 20, 60]))
        self.custom = None
        self._damage_setup()
        self.strong = bool(rng.random() < .08) if strong is None else strong
        self._demands()
        self._library()
        self._components()
        dl = {'Demands': self.demand_cfg, 'Asset': self._asset(), 'Damage': self._damage(), 'Options': self._options()}
        has_loss = rng.random() < .85 if losses is None else losses
        if has_loss:
            dl['Losses'] = {'Repair': self._losses()}
            if rng.random() < .1:
                dl['Losses'] = {'BldgRepair': dl['Losses']['Repair']}
        self.has_loss = has_loss
        if outputs:
            out = self._outputs(has_loss)
            if out is not None:
                dl['Outputs'] = out
        if not has_loss and 'Outputs' not in dl:
            dl['Outputs'] = {'Demand': {'Sample': True}, 'Damage': {'Sample': True}}
        self.config = {'GeneralInformation': {'units': {'length': self.length, 'force': 'kN'}}, 'DL': dl}
        self.detailed, self.format = True, None
        self.write()

    # ------------------------------------------------------------ inputs
    def _damage_setup(self):
        rng = self.rng
        self.rid = bool(rng.random() < .5)              # irreparable damage is assessed
        self.collapse = pbe.pick(rng, [None, None, 'SA_1.13', 'SA_1.13', 'PID', 'PFA'])
        self.process = pbe.pick(rng, [P58, P58, P58, 'None', 'User Defined'])

    def _demands(self):
        rng, S = self.rng, self.S
        cols = []
        pfv = rng.random() < .2
        for d in range(1, self.dirs + 1):
            cols += [f'PFA-{k}-{d}' for k in range(S + 1)] + [f'PID-{k}-{d}' for k in range(1, S + 1)]
            if pfv:
                cols += [f'PFV-{k}-{d}' for k in range(S + 1)]
        if (self.collapse or '').startswith('SA') or rng.random() < .3:
            cols.append('SA_1.13-0-1')
        self.infer = bool(self.rid and rng.random() < .7)
        if self.rid and not self.infer:
            cols += [f'RID-{k}-{d}' for k in range(1, S + 1) for d in range(1, self.dirs + 1)]
        cols = [cols[i] for i in rng.permutation(len(cols))]
        given = rng.random() < .4
        m = int(rng.integers(2 * len(cols) + 2, 3 * len(cols) + 10)) if rng.random() < .7 else int(rng.integers(3, 8))
        us, vals = [], {}
        eta = rng.normal(size=m) * .4
        for c in cols:
            e = c.split('-')[0].split('_')[0]
            u = pbe.pick(rng, pbe.EDP_UNITS[e]) if given else units_of(e, self.length)
            us.append(u)
            v = SCALE[e] * np.exp(eta + rng.normal(size=m) * .4) / pbe.U[u]
            vals[c] = [pbe.sig(x, 7) for x in v]
        event = '1-' if rng.random() < .3 else ''
        df = pd.DataFrame({event + c: v for c, v in vals.items()}, dtype=object)
        if given:
            df = pd.concat([pd.DataFrame([us], columns=df.columns, index=['Units']), df])
        elif rng.random() < .3 and event:
            df.insert(0, 'interface', ['NO_ID'] * m)
            df.insert(1, 'eventID', [f'x{i}' for i in range(m)])
        self.demands, self.given_units, self.event = df, given, event
        self.raw = {c: np.array(v) for c, v in vals.items()}
        self.raw_units = dict(zip(cols, us))
        cfg = {}
        if rng.random() < .4:
            cfg['CollapseLimits'] = {}
            for e in ('PID', 'PFA'):
                if rng.random() < .6 or e == 'PID':
                    x = pbe.sig(np.quantile(np.max([v for c, v in self.raw.items() if c.startswith(e)], axis=0), .8), 3)
                    x = max(1, round(x)) if e == 'PFA' and rng.random() < .6 else x
                    cfg['CollapseLimits'][e] = str(x) if rng.random() < .5 else x
        self.coupled = bool(rng.random() < .25)
        u = rng.random()
        joint = m > len(cols) + 3 and 'CollapseLimits' not in cfg
        if u < .45 and joint:
            cfg['Calibration'] = {'ALL': {'DistributionFamily': 'lognormal'}}
            if rng.random() < .4:
                cfg['Calibration']['PID'] = {'DistributionFamily': pbe.pick(rng, ['lognormal', 'normal', 'empirical'])}
            if rng.random() < .3:
                cfg['Calibration']['ALL']['AddUncertainty'] = .2
        elif u < .6:
            cfg['Calibration'] = {'ALL': {'DistributionFamily': 'empirical'}}
        if self.coupled and rng.random() < .8:
            cfg['CoupledDemands'] = True
            cfg.pop('Calibration', None)
        if self.infer:
            dirs = [str(d) for d in range(1, self.dirs + 1)]
            if rng.random() < .2:
                dirs = dirs[:1]
            cfg['InferResidualDrift'] = {'method': 'FEMA P-58', **{d: str(pbe.sig(rng.uniform(.002, .01), 3)) for d in dirs}}
        if rng.random() < .15 and self.dirs == 1:
            cfg['DemandCloning'] = {c: [c, c[:-1] + '2'] for c in cols if c.startswith(('PID', 'PFA'))}
        self.demand_cfg = cfg

    def _row(self, e, edp_scale=1.):
        rng = self.rng
        u = pbe.pick(rng, pbe.EDP_UNITS[e])
        row = {'Incomplete-': 0, 'Demand-Type': NAMES[e], 'Demand-Unit': u, 'Demand-Offset': 0,
               'Demand-Directional': int(e == 'PID' or rng.random() < .5)}
        k = int(rng.integers(1, 4))
        med = (1e4 if self.strong else 1.) * SCALE[e] * np.sort(np.exp(rng.uniform(-.5, 1., k))) / pbe.U[u]
        for i in range(k):
            fam = pbe.pick(rng, ['lognormal', 'lognormal', 'lognormal', 'normal', ''])
            row[f'LS{i + 1}-Theta_0'] = pbe.sig(med[i], 4)
            if fam:
                row[f'LS{i + 1}-Family'] = fam
                row[f'LS{i + 1}-Theta_1'] = pbe.sig(rng.uniform(.2, .5), 3)
            if i == k - 1 and k > 1 and rng.random() < .25:
                row[f'LS{i + 1}-DamageStateWeights'] = '0.4 | 0.6'
        return row

    def _cons(self, rows, c, dvs):
        rng = self.rng
        for dv in dvs:
            row = {'Incomplete-': 0, 'Quantity-Unit': '1 EA', 'DV-Unit': DV[dv]}
            for k in range(1, 6):
                x = pbe.sig(10 ** rng.uniform(1, 3), 4) * k
                if rng.random() < .3:
                    row[f'DS{k}-Theta_0'] = f'{2 * x},{x}|1,20'
                else:
                    row[f'DS{k}-Theta_0'] = x
                if rng.random() < .6:
                    row[f'DS{k}-Family'], row[f'DS{k}-Theta_1'] = pbe.pick(rng, ['lognormal', 'normal']), pbe.sig(rng.uniform(.1, .5), 3)
            rows[f'{c}-{dv}'] = row

    def _functions(self, c, dvs):
        rng, e = self.rng, self.edp[c]
        u = pbe.pick(rng, pbe.EDP_UNITS[e])
        x = [pbe.sig(SCALE[e] * k / pbe.U[u], 4) for k in (-1e5, 0., .5, 1, 2, 1e5)]      # (normal demands can be negative)
        d = int(rng.random() < .6)
        for dv in dvs:
            if dv != 'Cost' and rng.random() < .3:
                continue
            y = [0., 0.] + [pbe.sig(v, 4) for v in np.sort(10 ** rng.uniform(1, 3, 4))]
            row = {'DV-Unit': DV[dv], 'Incomplete-': 0, 'Demand-Type': NAMES[e], 'Demand-Unit': u, 'Demand-Offset': 0, 'Demand-Directional': d,
                   'LossFunction-Theta_0': ','.join(map(str, y)) + '|' + ','.join(map(str, x))}
            if rng.random() < .5:
                row['LossFunction-Family'], row['LossFunction-Theta_1'] = 'lognormal', .3
            self.lf[f'{c}-{dv}'] = row

    @staticmethod
    def frame(rows, cols=()):
        df = pd.DataFrame.from_dict(rows, orient='index')
        for c in cols:
            if c not in df:
                df[c] = np.nan
        df.index.name = 'ID'
        return df[sorted(df.columns)]

    def _library(self):
        """Two libraries and a custom database with partly the same identifiers."""
        rng = self.rng
        ids = [f'{pbe.pick(rng, "BCD")}.{rng.integers(10, 99)}.{rng.integers(100, 999)}{pbe.pick(rng, ["", "a", "b"])}' for _ in range(5)]
        ids = list(dict.fromkeys(ids))
        self.edp = {c: pbe.pick(rng, ['PFA', 'PID', 'PID', 'PFA'] + (['PFV'] if any(x.startswith('PFV') for x in self.raw) else [])) for c in ids}
        head = ['LS1-DamageStateWeights', 'LS1-Family', 'LS1-Theta_1', 'LS2-Theta_0', 'LS2-Theta_1', 'LS2-Family', 'LS2-DamageStateWeights']
        self.frag = {P58: {}, SC: {}, 'custom': {}}
        self.cons = {P58: {}, SC: {}, 'custom': {}}
        self.home = {}
        self.sc_lf = bool(rng.random() < .35)
        self.lf = {}
        dvs = list(DV)
        for c in ids:
            w = pbe.pick(rng, [[P58], [P58], [SC], ['custom'], [P58, 'custom']]) if self.sc_lf else pbe.pick(rng, [[P58], [P58], [SC], ['custom'], [P58, SC], [P58, 'custom'], [P58, SC, 'custom']])
            self.home[c] = w
            for x in w:
                if not (self.sc_lf and x == SC and rng.random() < .5):
                    self.frag[x][c] = self._row(self.edp[c])
            if self.sc_lf and SC in w:
                self._functions(c, dvs)
                continue
            for x in (w if rng.random() < .9 else w[:1]):
                if rng.random() < .95:
                    self._cons(self.cons[x], c, dvs)
        for x in (P58, SC):
            if not self.frag[x]:
                self.frag[x]['Z.00.000'] = self._row('PID')
            if not self.cons[x]:
                self._cons(self.cons[x], 'Z.00.000', ['Cost'])
        for x in (P58, SC):
            library.add(self.lib, x, 'fragility.csv', self.frame(self.frag[x], head if x == P58 else ()))
            if x == SC and self.sc_lf:
                if not self.lf:
                    self.edp['Z.00.001'] = 'PID'
                    self._functions('Z.00.001', ['Cost'])
                library.add(self.lib, x, 'loss_repair.csv', self.frame(self.lf, ['LossFunction-Family', 'LossFunction-Theta_1']))
            else:
                library.add(self.lib, x, 'consequence_repair.csv', self.frame(self.cons[x], ['DS1-Family', 'DS1-Theta_1']))
        self.use_sc = any(SC in w for w in self.home.values())
        self.use_custom = any('custom' in w for w in self.home.values())

    def _components(self):
        rng, S = self.rng, self.S
        rows = []
        self.used = []
        for c in self.home:
            if self.used and rng.random() < .25:
                continue
            self.used.append(c)
            e = self.edp[c]
            for _ in range(int(rng.integers(1, 3))):
                loc = pbe.pick(rng, ['all', 'top', str(int(rng.integers(1, S + 1))), f'1--{S}'] + (['roof'] if e != 'PID' else []))
                nd = not any(self.frag[x][c]['Demand-Directional'] for x in self.home[c] if c in self.frag[x])
                nd = nd and not self.lf.get(f'{c}-Cost', {}).get('Demand-Directional')
                d = '0' if nd and rng.random() < .7 else ','.join(str(x) for x in range(1, int(rng.integers(1, self.dirs + 1)) + 1))
                fam = pbe.pick(rng, ['', '', 'normal', 'lognormal'])
                q = pbe.sig(10 ** rng.uniform(0, 1.5), 4)
                rows.append((c, 'ea', loc, d, fam or np.nan, q, .2 if fam else np.nan, int(rng.integers(1, 4))))
        df = pd.DataFrame([r[1:] for r in rows], index=[r[0] for r in rows],
                          columns=['Units', 'Location', 'Direction', 'Family', 'Theta_0', 'Theta_1', 'Blocks'])
        if rng.random() < .3:
            df = df.drop(columns='Blocks')
        self.cmp = df

    def _asset(self):
        db = [P58] + ([SC] if self.use_sc else [])
        out = {'ComponentAssignmentFile': 'CMP_QNT.csv', 'NumberOfStories': str(self.S) if self.rng.random() < .7 else self.S,
               'ComponentDatabase': ','.join(db) if self.rng.random() < .5 else ', '.join(db)}
        if self.use_custom:
            out['ComponentDatabasePath'] = 'CustomDLDataFolder/frag.csv' if self.rng.random() < .5 else 'custom/frag.csv'
            self.custom = 'custom'
        return out

    def _damage(self):
        rng = self.rng
        out = {'DamageProcess': self.process}
        if self.collapse:
            e = self.collapse.split('_')[0]
            x = pbe.sig(SCALE[e] * 2.5 / pbe.U[units_of(e, self.length)], 4)
            out['CollapseFragility'] = {'DemandType': self.collapse, 'CapacityMedian': str(x) if rng.random() < .5 else x}
            if rng.random() < .75:
                t = pbe.sig(rng.uniform(.2, .6), 3)
                out['CollapseFragility'].update({'CapacityDistribution': 'lognormal', 'Theta_1': str(t) if rng.random() < .5 else t})
        if self.rid:
            out['IrreparableDamage'] = {'DriftCapacityMedian': str(pbe.sig(rng.uniform(.003, .01), 3)), 'DriftCapacityLogStd': pbe.pick(rng, ['0.3', .3])}
        if self.process == 'User Defined':
            out['DamageProcessFilePath'] = 'process.json'
            a = self.used[0]
            self.user_process = {f'1_{a}': {'DS1': 'collapse_DS1'} if rng.random() < .5 else {'DS1': f'{self.used[-1]}_NA'}, '2_collapse': {'DS1': 'ALL_NA'}}
        if rng.random() < .15:
            out['ScalingSpecification'] = {self.used[0]: {'LS1': '*1.2'}}
        return out

    def _options(self):
        rng = self.rng
        o = {'Seed': int(rng.integers(1, 10 ** 6))}
        n = self.n
        if rng.random() < .6:
            self.demand_cfg['SampleSize'] = str(n) if rng.random() < .7 else n
        else:
            o['Sampling'] = {'SampleSize': n}
        if rng.random() < .3:
            o.setdefault('Sampling', {})['SamplingMethod'] = pbe.pick(rng, ['LHS', 'MonteCarlo', 'LHS_midpoint'])
        if rng.random() < .3:
            o['ListAllDamageStates'] = bool(rng.random() < .5)
        if self.strong:
            o['ListAllDamageStates'] = False
        if rng.random() < .3:
            o['NonDirectionalMultipliers'] = {'ALL': 1.0}
        if rng.random() < .2:
            o['EconomiesOfScale'] = {'AcrossFloors': bool(rng.random() < .5), 'AcrossDamageStates': bool(rng.random() < .5)}
        if rng.random() < .2:
            o['RepairCostAndTimeCorrelation'] = pbe.pick(rng, [.7, '0.7'])
        return o

    def _losses(self):
        rng = self.rng
        db = [P58] + ([SC] if self.use_sc else [])
        out = {'ConsequenceDatabase': ','.join(db), 'MapApproach': 'Automatic'}
        if self.use_custom and self.cons['custom']:
            out['ConsequenceDatabasePath'] = 'CustomDLDataFolder/cons.csv'
        if rng.random() < .3:
            self.custom = 'custom'
            out['MapApproach'] = 'User Defined'
            out['MapFilePath'] = 'CustomDLDataFolder/map.csv'
            self.user_map = {c: c for c in self.used if any(f'{c}-Cost' in x for x in [self.lf, *self.cons.values()])} or {'Z.00.000': 'Z.00.000'}
        else:
            self.user_map = None
        self.dvs = ('Cost', 'Time')
        p = .9 if self.process != P58 else .5
        if rng.random() < .5:
            self.dvs = tuple(dv for dv in DV if rng.random() < .6) or ('Cost',)
            out['DecisionVariables'] = {dv: dv in self.dvs for dv in DV if dv in self.dvs or rng.random() < .5}
        for dv in DV:
            must = self.process != P58 and dv in self.dvs
            if must or rng.random() < .5:
                x = pbe.sig(10 ** rng.uniform(4, 6), 4)
                r = {'Unit': DV[dv], 'Median': str(x) if rng.random() < .5 else x}
                if rng.random() < .5:
                    t = pbe.sig(rng.uniform(.1, .4), 3)
                    r.update({'Distribution': pbe.pick(rng, ['lognormal', 'normal']), 'Theta_1': str(t) if rng.random() < .5 else t})
                out[f'Replacement{dv}'] = r
        return out

    def _outputs(self, has_loss):
        rng = self.rng
        if rng.random() < .12:
            return None
        out = {}
        for k, v in FULL.items():
            if k == 'Loss' and not has_loss or rng.random() < .15:
                continue
            sel = {x: bool(rng.random() < .6) for x in v if rng.random() < .9}
            out[k] = {'Repair': sel} if k == 'Loss' else sel
        if rng.random() < .8:
            out['Format'] = pbe.pick(rng, [{'CSV': True, 'JSON': True}, {'CSV': False, 'JSON': True}, {'CSV': True, 'JSON': False}, {'JSON': True}, {'CSV': False}])
        if rng.random() < .6:
            out['Settings'] = {k: bool(rng.random() < .5) for k in ('CondenseDS', 'SimpleIndexInJSON', 'AggregateColocatedComponentResults') if rng.random() < .8}
        return out or None

    def write(self):
        f = self.folder
        self.demands.to_csv(f / 'response.csv')
        self.cmp.to_csv(f / 'CMP_QNT.csv')
        c = f / 'custom'
        c.mkdir(exist_ok=True)
        if self.frag['custom']:
            self.frame(self.frag['custom'], ['LS1-Family', 'LS1-Theta_1']).to_csv(c / 'frag.csv')
        if self.cons['custom']:
            self.frame(self.cons['custom'], ['DS1-Family', 'DS1-Theta_1']).to_csv(c / 'cons.csv')
        if getattr(self, 'user_map', None):
            pd.DataFrame({'Repair': self.user_map}).to_csv(c / 'map.csv')
        if self.process == 'User Defined':
            (f / 'process.json').write_text(json.dumps(self.user_process))
        (f / 'config.json').write_text(json.dumps(self.config, indent=1))


# ---------------------------------------------------------------- auto-population
SCRIPT = '''
import json
from pathlib import Path
import pandas as pd

HERE = Path(__file__).resolve().parent


def auto_populate(aim):
    gi = aim['GeneralInformation']
    return dict(gi), json.loads((HERE / 'dl.json').read_text()), pd.read_csv(HERE / 'comp.csv', index_col=0)
'''


def automatic(rng, k, folder):
    """The same calculation with the configuration produced by a script."""
    dl = json.loads(json.dumps(k.config['DL']))
    if k.process == 'User Defined':
        dl['Damage'].update({'DamageProcess': 'None'})
        dl['Damage'].pop('DamageProcessFilePath')
        if 'Losses' in dl:
            r = next(iter(dl['Losses'].values()))
            for dv in k.dvs:
                r.setdefault(f'Replacement{dv}', {'Unit': DV[dv], 'Median': 1000.})
    dl['Asset'].pop('ComponentAssignmentFile')
    dl['Options'].pop('Sampling', None)
    for x in ('SampleSize', 'CoupledDemands', 'Calibration'):
        dl['Demands'].pop(x, None)
    if rng.random() < .5:
        dl.pop('Outputs', None)
    c = folder / 'custom'
    c.mkdir(exist_ok=True)
    (c / 'pelicun_config.py').write_text(SCRIPT)
    (c / 'dl.json').write_text(json.dumps(dl))
    k.cmp.to_csv(c / 'comp.csv')
    cfg = {'GeneralInformation': k.config['GeneralInformation'], 'assetType': 'Buildings',
           'Applications': {'DL': {'ApplicationData': {'DL_Method': 'User-provided Models', 'custom_model_dir': 'custom'}}}}
    if rng.random() < .6:
        cfg['outputs'] = {x: bool(rng.random() < .6) for x in ('AIM', 'IM', 'EDP', 'DM', 'DV')}
    return cfg, dl


# ---------------------------------------------------------------- running
@contextlib.contextmanager
def cwd(folder):
    old = os.getcwd()
    os.chdir(folder)
    try:
        yield
    finally:
        os.chdir(old)


def run(folder, out=None, demand='response.csv', config='config.json', custom=None, fmt=None, detailed=True, coupled=False, n=None, runner=None):
    """One calculation in this process; returns the (last) assessment and what calculate_loss returned."""
    from pelicun.tools import DL_calculation as D
    cls = D.DLCalculationAssessment
    seen = {}

    class Recorded(cls):
        __slots__ = []

        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            seen['assessment'] = self

        def calculate_demand(self, *a, **k):
            before = repr(k)
            super().calculate_demand(*a, **k)
            seen['inputs_kept'] = repr(k) == before

        def calculate_loss(self, *a, **k):
            r = super().calculate_loss(*a, **k)
            seen['agg'] = r[0].copy()
            return r

    D.DLCalculationAssessment = Recorded
    try:
        with cwd(folder), contextlib.redirect_stdout(io.StringIO()):
            (runner or D.run_pelicun)(config, demand, out, n, None, custom, fmt, detailed_results=detailed, coupled_edp=coupled)
    finally:
        D.DLCalculationAssessment = cls
    return seen
