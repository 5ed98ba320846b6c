"""Random building/asset models with deterministic capacities, and what their damage should be."""
import numpy as np
import pandas as pd

import pbe

TYPES = {  # demand type in fragilities: (EDP, floor based?)
    'Peak Floor Acceleration': 'PFA', 'Peak Floor Velocity': 'PFV', 'Peak Interstory Drift Ratio': 'PID',
    'Story Drift Ratio': 'PID', 'Residual Interstory Drift Ratio': 'RID', 'Peak Ground Acceleration': 'PGA',
    'Peak Ground Velocity': 'PGV', 'Peak Gust Wind Speed': 'PWS', 'Peak Inundation Height': 'PIH',
    'Permanent Ground Deformation': 'PGD', 'Peak Spectral Acceleration|0.5': 'SA_0.5', 'Spectral Acceleration|1.13': 'SA_1.13',
}
BASE = lambda edp: edp.split('_')[0]  # noqa: E731
EXPR = [('X1', 1), ('sqrt(X1^2+X2**2)', 2), ('X1 + X2', 2), ('2*X1 - X2/3', 2), ('X1*X2', 2), ('X1 + X2 + 3*X3', 3)]


def evaluate(expr, xs):
    x = dict(zip(('X1', 'X2', 'X3'), xs))
    return {'X1': lambda: x['X1'], 'sqrt(X1^2+X2**2)': lambda: np.sqrt(x['X1'] ** 2 + x['X2'] ** 2),
            'X1 + X2': lambda: x['X1'] + x['X2'], '2*X1 - X2/3': lambda: 2 * x['X1'] - x['X2'] / 3,
            'X1*X2': lambda: x['X1'] * x['X2'], 'X1 + X2 + 3*X3': lambda: x['X1'] + x['X2'] + 3 * x['X3']}[expr]()


class Model:
    """A random problem: self.frag / self.marginals / self.demands are inputs, the rest is the truth in SI."""

    def __init__(self, rng, n=None, ncmp=None, exprs=True, weights=False, blocks=True, nls=4, stories=None,
                 random_quantities=False, cmp_names=None, default_opts=False, gaps=False, maxblocks=5, max_rows=3,
                 magnitude=1.):
        self.rng, self.n = rng, n or int(rng.choice([1, 2, 5, 12, 40]))
        n = self.n
        self.stories = stories or int(rng.integers(1, 6) if rng.random() < .85 else rng.integers(10, 13))
        S = self.stories
        self.opts = {}
        if not default_opts:
            if rng.random() < .5:
                self.opts['NonDirectionalMultipliers'] = pbe.pick(
                    rng, [{'ALL': 1.0}, {'ALL': 1.5, 'PFA': 1.1}, {'PFA': .8, 'PID': 1.3, 'ALL': 1.2}, {'PID': 1.7}])
            if rng.random() < .4:
                self.opts['DemandOffset'] = pbe.pick(rng, [{}, {'PFA': -1}, {'PID': 1, 'PFA': 0, 'PFV': 0}, {'PGA': 1}])
        # options are merged with the defaults
        self.mult = {'ALL': 1.2, **self.opts.get('NonDirectionalMultipliers', {})}
        self.offs = {'PFA': -1, 'PFV': -1, **self.opts.get('DemandOffset', {})}
        ncmp = ncmp or int(rng.integers(1, 6))
        names = cmp_names or [f'{pbe.pick(rng, "BCDE")}.{rng.integers(10, 99)}.{rng.integers(100, 999)}' for _ in range(ncmp)]
        names = list(dict.fromkeys(names))
        kinds = list(TYPES)
        use = [pbe.pick(rng, kinds) for _ in range(int(rng.integers(1, 4)))]
        self.edps = set()
        self.cmps, rows = {}, []
        for name in names:
            t = pbe.pick(rng, use)
            expr, terms = None, [t]
            if exprs and rng.random() < .2:
                expr, k = pbe.pick(rng, EXPR)
                same = [x for x in kinds if BASE(TYPES[x]) == BASE(TYPES[t])]
                terms = [t] + [pbe.pick(rng, same if expr != 'X1*X2' else kinds) for _ in range(k - 1)]
            dem = [(x, int(rng.choice([0, 0, 0, 1, 2])) - (1 if rng.random() < .1 else 0), int(rng.random() < .6)) for x in terms]
            self.cmps[name] = {'dem': dem, 'expr': expr}
        # performance groups
        self.pgs = []
        area = pbe.AREA
        for name in names:
            u = pbe.pick(rng, [['ea'], area, pbe.LEN][int(rng.integers(3))])
            for _ in range(int(rng.integers(1, max_rows + 1))):
                lo_min = max([0] + [-(o + self.offs.get(BASE(TYPES[x]), 0)) for x, o, _ in self.cmps[name]['dem']])
                locs = [x for x in pbe.pick(rng, [[int(rng.integers(0, S + 1))], list(range(1, S + 1)), [S], [S + 1]]) if x >= lo_min] or [lo_min]
                dirs = pbe.pick(rng, [[1], [0], [1, 2], [2], [0, 1, 2]])
                blk = int(rng.integers(1, maxblocks + 1)) if blocks and rng.random() < .6 else 1
                q = pbe.sig(10 ** rng.uniform(-1, 3))
                fam = t1 = np.nan
                if random_quantities and rng.random() < .5:
                    fam, t1 = 'lognormal', .3
                rows.append((name, u, ','.join(map(str, locs)), ','.join(map(str, dirs)), fam, q, t1, blk))
                for lo in locs:
                    for d in dirs:
                        uid = sum(p['cmp'] == name and p['loc'] == str(lo) and p['dir'] == str(d) for p in self.pgs)
                        self.pgs.append({'cmp': name, 'loc': str(lo), 'dir': str(d), 'uid': str(uid), 'blocks': blk,
                                         'q': q * pbe.U[u], 'fam': fam, 't1': t1})
        self.marginals = pd.DataFrame([r[1:] for r in rows], index=[r[0] for r in rows],
                                      columns=['Units', 'Location', 'Direction', 'Family', 'Theta_0', 'Theta_1', 'Blocks'])
        for c in ('Family', 'Theta_1'):
            if self.marginals[c].isna().all():
                self.marginals = self.marginals.drop(columns=c)
        if not blocks:
            self.marginals = self.marginals.drop(columns='Blocks')
        # demands
        need = []
        for p in self.pgs:
            for x, o, dr in self.cmps[p['cmp']]['dem']:
                e = TYPES[x]
                lo = int(p['loc']) + o + self.offs.get(BASE(e), 0)
                if dr:
                    need.append((e, str(lo), p['dir']))
                else:
                    need += [(e, str(lo), str(d)) for d in rng.permutation([1, 2, 3])[:int(rng.integers(1, 4))]]
        for _ in range(int(rng.integers(0, 3))):
            need.append((TYPES[pbe.pick(rng, kinds)], str(int(rng.integers(0, S + 1))), '1'))
        need = list(dict.fromkeys(need))
        need = [need[i] for i in rng.permutation(len(need))]
        cols, us, self.dem = [], [], {}
        for e in need:
            u = pbe.pick(rng, pbe.EDP_UNITS[BASE(e[0])])
            v = np.array([pbe.sig(x, 7) for x in magnitude * pbe.SCALE[BASE(e[0])] * np.exp(rng.uniform(np.log(.2), np.log(4), n)) / pbe.U[u]])
            cols.append('-'.join(e))
            us.append(u)
            self.dem[e] = v * pbe.U[u]
        df = pd.DataFrame({c: list(self.dem[e] / pbe.U[u]) for c, e, u in zip(cols, need, us)}, dtype=object)
        df = pd.concat([pd.DataFrame([us], columns=cols, index=['Units']), df])
        df.index = ['Units'] + [str(i) for i in range(n)]
        self.demands = df
        # capacities, from the demands the component sees so that outcomes vary
        frag = {}
        for name, c in self.cmps.items():
            seen = np.concatenate([self.demand(p) for p in self.pgs if p['cmp'] == name])
            k = int(rng.integers(1, nls + 1))
            caps = np.exp(rng.uniform(-.6, .9, k)) * rng.choice(seen, k)
            if rng.random() < .85:
                caps = np.sort(caps)
            u = pbe.pick(rng, pbe.EDP_UNITS[BASE(TYPES[c['dem'][0][0]])]) if c['expr'] != 'X1*X2' else 'unitless'
            capu = [pbe.sig(x, 9) for x in caps / pbe.U[u]]
            exact = all(pbe.U[x] == 1. for e, x in zip(need, us) if e[0] == TYPES[c['dem'][0][0]])
            one = [p for p in self.pgs if p['cmp'] == name and p['dir'] != '0']
            if rng.random() < .4 and pbe.U[u] == 1. and exact and one and c['expr'] is None and c['dem'][0][2]:
                # exactly at the capacity: not exceeded
                capu[0] = float(rng.choice(self.demand(one[0])))
            ids = list(range(1, k + 1))
            if gaps and k > 1 and rng.random() < .3:
                ids[1:] = [i + 1 for i in ids[1:]]
            c['ls'] = {}
            row = {}
            ds = 0
            for i, v in zip(ids, capu):
                w = None
                if weights and rng.random() < .4:
                    w = rng.dirichlet(np.ones(int(rng.integers(2, 5))))
                    w = [round(float(x), 4) for x in w[:-1]]
                    w.append(round(1 - sum(w), 6))
                    if rng.random() < .2:
                        w.insert(int(rng.integers(len(w) + 1)), 0.0)
                    row[f'LS{i}-DamageStateWeights'] = ' | '.join(map(str, w)) if rng.random() < .5 else '|'.join(map(str, w))
                nd = 1 if w is None else len(w)
                c['ls'][i] = {'cap': v * pbe.U[u], 'ds': list(range(ds + 1, ds + nd + 1)), 'w': w}
                ds += nd
                row[f'LS{i}-Theta_0'] = v
            c['nds'] = ds
            row['Demand-Unit'] = u
            c['unit'] = u
            for j, (x, o, dr) in enumerate(c['dem']):
                p = 'Demand' if j == 0 else f'Demand{j + 1}'
                row[f'{p}-Type'], row[f'{p}-Offset'], row[f'{p}-Directional'] = x, o, dr
            if c['expr'] is not None:
                row['Demand-Expression'] = c['expr']
            row['Incomplete-'] = 0
            frag[name] = row
        self.frag = pd.DataFrame.from_dict(frag, orient='index')
        self.frag = self.frag[list(rng.permutation(self.frag.columns))]
        if rng.random() < .4:
            for i in {int(x[2:].split('-')[0]) for x in self.frag.columns if x.startswith('LS')}:
                self.frag[f'LS{i}-Family'] = np.nan

    # ------------------------------------------------------------ reference
    def demand(self, p):
        c = self.cmps[p['cmp']]
        xs = []
        for x, o, dr in c['dem']:
            e = TYPES[x]
            lo = str(int(p['loc']) + o + self.offs.get(BASE(e), 0))
            if dr and p['dir'] != '0':
                xs.append(self.dem[e, lo, p['dir']])
            elif dr:
                xs.append(np.max([v for k, v in self.dem.items() if k[:2] == (e, lo)], axis=0) * self.mult.get(e, self.mult['ALL']))
            else:
                xs.append(np.max([v for k, v in self.dem.items() if k[:2] == (e, lo)], axis=0) * self.mult.get(e, self.mult['ALL']))
        return evaluate(c['expr'], xs) if c['expr'] else xs[0]

    def limit_state(self, p, scale=None):
        """Highest exceeded limit state (0: none) per realization, and how close any comparison was."""
        d = self.demand(p)
        out, margin = np.zeros(len(d), dtype=int), np.full(len(d), np.inf)
        for i, ls in self.cmps[p['cmp']]['ls'].items():
            cap = ls['cap'] if scale is None else scale(p, i, ls['cap'])
            out = np.where(d > cap, i, out)
            margin = np.minimum(margin, np.where(d == cap, np.inf, np.abs(d - cap) / np.abs(cap)))
        return out, margin

    # ------------------------------------------------------------ product
    def build(self, seed=1, marginals=None, load=True):
        a = pbe.assessment(self.opts, self.stories, seed)
        a.demand.load_sample(self.demands)
        a.asset.load_cmp_model({'marginals': self.marginals if marginals is None else marginals})
        a.asset.generate_cmp_sample(sample_size=self.n)
        if load:
            a.damage.load_model_parameters([self.frag], set(a.asset.list_unique_component_ids()))
        return a

    def pg_keys(self):
        return [(p['cmp'], p['loc'], p['dir'], p['uid']) for p in self.pgs]


def ds_dict(a):
    """{(cmp,loc,dir,uid,block): damage states}"""
    return {tuple(map(str, c)): a.damage.ds_model.ds_sample[c].to_numpy() for c in a.damage.ds_model.ds_sample.columns}


def qty_dict(a):
    return pbe.as_dict(a.damage.ds_model.sample)


def expected_quantities(model, ds, q):
    """{(cmp,loc,dir,uid,ds): quantity} from block damage states; -1 blocks count as missing."""
    out = {}
    for p in model.pgs:
        k = (p['cmp'], p['loc'], p['dir'], p['uid'])
        for b in range(1, p['blocks'] + 1):
            s = ds[k + (str(b),)]
            for v in set(s.tolist()) - {-1}:
                x = np.where(s == v, q[k] / p['blocks'], 0.)
                out.setdefault(k + (str(v),), []).append(np.where(s == -1, np.nan, x))
    res = {}
    for k, xs in out.items():
        xs = np.array(xs)
        res[k] = np.where(np.isnan(xs).all(axis=0), np.nan, np.nansum(xs, axis=0))
    return res
