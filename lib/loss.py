"""Random loss problems on top of dmg.Model, and what their losses should be."""
import numpy as np
import pandas as pd

import dmg
import pbe
import refuq

DVU = {'Cost': ['USD_2011', 'USD', 'loss_ratio'], 'Time': ['worker_day'], 'Carbon': ['kg', 'ton', 'lb'],
       'Energy': ['MJ', 'J'], 'Injuries': ['EA', 'ea'], 'CO2': ['kg', 'lb'], 'EmbodiedWater': ['m3', 'ft3']}
QTY = {'ea': ['1 EA', '1 EA', 'EA', '4 ea'], 'len': ['1 ft', '10 ft', 'm', '0.5 m', '100 in'], 'area': ['1 ft2', '100 ft2', 'm2', '0.25 m2', '50 SF']}


def ufac(u):
    p = u.split(' ')
    return (float(p[0]) if len(p) > 1 else 1.) * pbe.U[p[-1]]


def kind(u):
    return 'area' if u in pbe.AREA else 'len' if u in pbe.LEN else 'ea'


def crowded(x, w, cdf, tol=1e-7):
    """Values x (known to about w) of a stratified sample of size n = len(x) (NaN: not observed).

    Returns the number of strata that certainly hold more than one value.
    """
    n = len(x)
    ok = ~np.isnan(x)
    lo, hi = cdf(x[ok] - w[ok]) * n - tol * n, cdf(x[ok] + w[ok]) * n + tol * n
    a, b = np.floor(lo), np.floor(hi)
    sure = a[a == b]
    return len(sure) - len(set(sure.tolist()))


class Losses:
    """m: dmg.Model. self.table (damage-state consequences), self.functions (loss functions), self.map are inputs."""

    def __init__(self, rng, m, dvs=None, lf=.3, families=('lognormal', 'normal', 'deterministic'), missing=True, spread=True,
                 mapped=True, p_family=.5, replacement=0., shift=False):
        self.rng, self.m = rng, m
        self.dvs = dvs or tuple(str(x) for x in rng.permutation(list(DVU))[:int(rng.integers(1, 4))])
        self.unit = {dv: pbe.pick(rng, DVU[dv]) for dv in self.dvs}
        self.ds, self.lf, self.cons = {}, {}, {}
        rows, frows = {}, {}
        self.kinds = {}
        for c in m.cmps:
            us = {r['Units'] for n, r in m.marginals.iterrows() if n == c}
            ks = {kind(u) for u in us}
            self.kinds[c] = ks.pop() if len(ks) == 1 else None
        names = list(m.cmps)
        for i, c in enumerate(names):
            u = rng.random()
            if rng.random() < replacement:
                self.cons[c] = 'replacement'
            elif mapped and u < .2:
                self.cons[c] = f'cons.{i}'
            elif mapped and u < .35 and i and self.kinds[names[i - 1]] == self.kinds[c]:
                self.cons[c] = self.cons[names[i - 1]]
            else:
                self.cons[c] = c
        for c in names:
            k = self.cons[c]
            for dv in self.dvs:
                if (k, dv) in self.ds or (k, dv) in self.lf:
                    continue
                if missing and rng.random() < .1:
                    continue
                users = [x for x in names if self.cons[x] == k]
                if k != 'replacement' and rng.random() < lf and all(m.cmps[x]['expr'] is None for x in users):
                    frows[f'{k}-{dv}'] = self._lf(users, k, dv, families, p_family)
                else:
                    rows[f'{k}-{dv}'] = self._ds(users, k, dv, families, p_family)
        if missing and rng.random() < .4:       # definitions nothing refers to
            rows['unused.1-Cost'] = {'DV-Unit': self.unit.get('Cost', 'USD'), 'Quantity-Unit': '1 EA', 'Incomplete-': 0, 'DS1-Theta_0': 77.}
        self.table = self._frame(rows)
        self.functions = self._frame(frows)
        self.map = pd.DataFrame({'Repair': [self.cons[c] for c in names]}, index=names)
        self.map = self.map.loc[list(rng.permutation(names))]

    def _frame(self, rows):
        if not rows:
            return None
        df = pd.DataFrame.from_dict(rows, orient='index')
        df = df.loc[list(self.rng.permutation(df.index))]
        # the first damage state marks the kind of the table
        for c in ('DS1-Theta_0',):
            if 'LossFunction-Theta_0' not in df and c not in df:
                df[c] = np.nan
        return df[list(self.rng.permutation(df.columns))]

    def _theta(self, fam, scale):
        return {'lognormal': pbe.sig(self.rng.uniform(.1, .8), 4), 'normal': pbe.sig(self.rng.uniform(.05, .9), 4)}.get(fam, np.nan)

    def _ds(self, users, k, dv, families, p_family):
        rng = self.rng
        nds = max(self.m.cmps[c]['nds'] for c in users)
        qk = self.kinds[users[0]]
        qu = pbe.pick(rng, QTY[qk] if qk else ['1 EA'])
        row = {'DV-Unit': self.unit[dv], 'Quantity-Unit': qu, 'Incomplete-': 0}
        fu, fq = pbe.U[self.unit[dv]], ufac(qu)
        out = {}
        for d in range(1, nds + 1):
            if rng.random() < .15 and nds > 1:
                continue
            fam = pbe.pick(rng, families) if rng.random() < p_family else None
            base = pbe.sig(10 ** rng.uniform(0, 3), 5)
            t1 = self._theta(fam, base)
            e = {'fam': fam, 't1': t1, 'fn': None, 't0': base * fu / fq}
            if rng.random() < .45:
                nq = int(rng.integers(2, 5))
                tot = sum(p['q'] for p in self.m.pgs if p['cmp'] in users) / fq
                qs = sorted({pbe.sig(x, 4) for x in tot * np.exp(rng.uniform(-2.5, .5, nq))})
                meds = [pbe.sig(x, 5) for x in np.sort(base * np.exp(rng.uniform(-1, 1, len(qs))))[::-1]]
                if len(qs) > 1:
                    e['fn'] = (np.array(qs) * fq, np.array(meds) * fu / fq)
                    base = ','.join(map(str, meds)) + '|' + ','.join(map(str, qs))
            row[f'DS{d}-Theta_0'] = base
            if fam:
                row[f'DS{d}-Family'], row[f'DS{d}-Theta_1'] = fam, t1
            out[str(d)] = e
        self.ds[k, dv] = out
        return row

    def _lf(self, users, k, dv, families, p_family):
        rng, m = self.rng, self.m
        t, o, d = m.cmps[users[0]]['dem'][0]
        # every user of the consequence needs the demand: use only if they agree
        ok = all(m.cmps[x]['dem'][0] == (t, o, d) for x in users)
        if not ok:
            for x in users:
                if m.cmps[x]['dem'][0] != (t, o, d):
                    self.cons[x] = x            # falls back on its own definition
            users = [x for x in users if m.cmps[x]['dem'][0] == (t, o, d)]
        u = m.cmps[users[0]]['unit']
        seen = np.concatenate([m.demand(p) for p in m.pgs if p['cmp'] in users]) / pbe.U[u]
        lo, hi = seen.min() * .9, seen.max() * 1.1
        xs = sorted({pbe.sig(x, 5) for x in np.r_[lo, hi, rng.uniform(lo, hi, int(rng.integers(0, 4)))]})
        ys = [pbe.sig(x, 5) for x in np.sort(10 ** rng.uniform(0, 3) * rng.uniform(0, 1, len(xs)))]
        if rng.random() < .2:
            ys[0] = 0.
        fam = pbe.pick(rng, families) if rng.random() < p_family else None
        t1 = self._theta(fam, 1.)
        row = {'DV-Unit': self.unit[dv], 'Demand-Type': t, 'Demand-Offset': o, 'Demand-Directional': d, 'Demand-Unit': u,
               'LossFunction-Theta_0': ','.join(map(str, ys)) + '|' + ','.join(map(str, xs))}
        if fam:
            row['LossFunction-Family'], row['LossFunction-Theta_1'] = fam, t1
        self.lf[k, dv] = {'fam': fam, 't1': t1, 'x': np.array(xs) * pbe.U[u], 'y': np.array(ys) * pbe.U[self.unit[dv]]}
        return row

    # ---------------------------------------------------------------- product
    def load(self, a, policy=None, sources=None, loss_map='own'):
        a.loss.decision_variables = self.dvs
        a.loss.add_loss_map(self.map.copy() if isinstance(loss_map, str) else loss_map, policy)
        src = sources if sources is not None else [x for x in (self.table, self.functions) if x is not None]
        a.loss.load_model_parameters([x.copy() if isinstance(x, pd.DataFrame) else x for x in src])

    # ---------------------------------------------------------------- reference
    def ds_losses(self, q, across_floors, across_ds):
        """q {(cmp,loc,dir,uid,ds): quantity} -> {(dv,loss,dmg,ds,loc,dir,uid): (q*median, tolerance, entry)}"""
        out = {}
        for (c, loc, d, uid, ds), x in q.items():
            if ds == '0' or c not in self.cons:
                continue
            for dv in self.dvs:
                e = self.ds.get((self.cons[c], dv), {}).get(ds)
                if e is None:
                    continue
                if e['fn'] is None:
                    med, tol = (1. if e['fam'] else e['t0']), 0.
                else:
                    eco = sum(v for k, v in q.items() if k[0] == c and (across_floors or k[1] == loc) and (across_ds and k[4] != '0' or k[4] == ds))
                    xs, ys = e['fn']
                    med = np.interp(eco, xs, ys)
                    # (rounding in the loaded function)
                    tol = 1e-11 * np.abs(np.diff(ys) / np.diff(xs)).max() * xs.max() + 1e-11 * np.abs(ys).max()
                out[dv, self.cons[c], c, ds, loc, d, uid] = (x * med, x * tol, e)
        return out

    def lf_losses(self, qty):
        """{(dv,loss,dmg,loc,dir,uid): (median loss, tolerance, entry, blocks)}"""
        out = {}
        for p in self.m.pgs:
            c = p['cmp']
            for dv in self.dvs:
                e = self.lf.get((self.cons[c], dv))
                if e is None:
                    continue
                d = self.m.demand(p)
                q = qty[c, p['loc'], p['dir'], p['uid']]
                y = np.interp(d, e['x'], e['y'])
                tol = 1e-11 * np.abs(np.diff(e['y']) / np.diff(e['x'])).max() * e['x'].max() + 1e-11 * np.abs(e['y']).max()
                out[dv, self.cons[c], c, p['loc'], p['dir'], p['uid']] = (y * q, tol * q, e, p['blocks'])
        return out


def ratio_ppf(e, functional):
    """Quantile function of the deviation from the median."""
    t0 = 1. if functional or e.get('t0') is None else e['t0']
    if e['fam'] == 'deterministic':
        return lambda u: np.full(np.shape(u), t0)
    return lambda u: refuq.ppf(e['fam'], (t0, e['t1']), u, 0., np.nan)


def ratio_cdf(e, functional, x):
    t0 = 1. if functional or e.get('t0') is None else e['t0']
    return refuq.cdf(e['fam'], (t0, e['t1']), x, 0., np.nan)


def problem(ctx, n=None, dm=None, **kw):
    """A random building with its damage and losses calculated: (model, losses, assessment)."""
    rng = ctx.rng
    m = dmg.Model(rng, n=n, random_quantities=True, exprs=False, **(dm or {}))
    m.opts['EconomiesOfScale'] = {'AcrossFloors': bool(rng.random() < .5), 'AcrossDamageStates': bool(rng.random() < .5)}
    L = Losses(rng, m, **kw)
    ctx.describe(frag=m.frag, consequences=L.table, functions=L.functions, map=L.map, marginals=m.marginals)
    a = m.build(seed=int(rng.integers(1e6)))
    a.damage.calculate()
    L.load(a)
    a.loss.calculate()
    return m, L, a


def components(a):
    """{(dv,loss,dmg,loc,dir,uid): loss} of both models, damage states summed."""
    out = {}
    for mod in (a.loss.ds_model, a.loss.lf_model):
        if mod.sample is None:
            continue
        for k, v in pbe.as_dict(mod.sample).items():
            k = k[:3] + k[4:] if len(k) == 7 else k
            out[k] = out.get(k, 0) + v
    return out
