"""C24: aggregate losses equal component losses or the replacement consequence."""
import numpy as np
import loss
import pbe
import refuq

ID = 'C24'
RULE = ('seeded buildings with damage-state and loss-function losses of 1-3 decision variables in any unit, components mapped to '
        'replacement, replacement thresholds (some decision variables, random or fixed replacement values); every aggregate against '
        'sums over the component sample, and the exceedance table against the stated rule')
QUICK, THOROUGH = 180, 10000
MIN_OBS = {'at_threshold': 20, 'aggregates': 250, 'replaced_rows': 200, 'threshold_rows': 150, 'kept_rows': 500, 'time': 40, 'no_losses': 2}


def registry(rng, a, dvs, scale, n):
    from pelicun import uq
    reg = uq.RandomVariableRegistry(a.options.rng)
    spec = {}
    for dv in dvs:
        med = scale.get(dv, 1.) or 1.
        if rng.random() < .5:
            reg.add_RV(uq.DeterministicRandomVariable(name=dv, theta=np.array([med])))
            spec[dv] = (None, med)
        else:
            reg.add_RV(uq.LogNormalRandomVariable(name=dv, theta=np.array([med, .5])))
            spec[dv] = ('lognormal', med)
    return reg, spec


def case(ctx):
    rng = ctx.rng
    few = rng.random() < .06
    m, L, a = loss.problem(ctx, lf=.0 if few else .3, replacement=float(pbe.pick(rng, [0, 0, .2, .4])), missing=rng.random() < .3 or few,
                           dm={'ncmp': 1} if few else None,
                           dvs=tuple(str(x) for x in rng.permutation(['Cost', 'Time', pbe.pick(rng, ['Carbon', 'CO2', 'EmbodiedWater'])])[:int(rng.integers(1, 4))]))
    exact = rng.random() < .35
    if exact:
        # values that add up without rounding, to place thresholds exactly at a realization's loss
        for mo in (a.loss.ds_model, a.loss.lf_model):
            if mo.sample is not None and mo.sample.shape[1]:
                q = 2. ** np.floor(np.log2(max(float(np.nanmax(mo.sample.to_numpy())), 1e-300)) - 12)
                mo.sample = (mo.sample / q).round() * q
    comp = loss.components(a)
    stored = {k: v.copy() for k, v in comp.items()}
    n = m.n
    have = [dv for dv in L.dvs if any(k[0] == dv for k in comp)]
    total = {dv: float(np.mean(sum([v for k, v in comp.items() if k[0] == dv and k[1] != 'replacement'], np.zeros(n)))) for dv in L.dvs}
    conf, reg = None, None
    if rng.random() < .6 and all(dv in a.loss.dv_units for dv in L.dvs):
        reg, spec = registry(rng, a, L.dvs, total, n)
        dvt = [dv for dv in L.dvs if rng.random() < .8]
        conf = (reg, {dv: float(pbe.pick(rng, [.3, 1., 2.])) for dv in dvt})
        if exact:
            from pelicun import uq
            for dv in L.dvs:
                s = sum([v for k, v in comp.items() if k[0] == dv and k[1] != 'replacement'], np.zeros(n))
                if dv in conf[1] and (s > 0).any():
                    x, ratio = float(pbe.pick(rng, list(s[s > 0]))), float(pbe.pick(rng, [.25, .5, 1., 2.]))
                    reg.RV[dv] = uq.DeterministicRandomVariable(name=dv, theta=np.array([x / ratio]))
                    spec[dv], conf[1][dv] = (None, x / ratio), ratio
    agg = a.loss.aggregate_losses(conf, None, future=True)
    if not ctx.check(isinstance(agg, tuple) and len(agg) == 2, 'return', lambda: f'future=True returned {type(agg)}'):
        return
    agg, exc = agg
    if not comp:
        ctx.count('no_losses')
        ctx.check(len(agg) == n and (agg.to_numpy() == 0).all(), 'no-losses', lambda: f'{len(agg)} rows for {n} realizations: {agg}')
        return
    # replacement wherever its consequence occurs
    repl = np.zeros(n, dtype=bool)
    for k, v in comp.items():
        if k[1] == 'replacement':
            repl |= v > 0
    exp = {k: (v if k[1] == 'replacement' else np.where(repl, 0., v)) for k, v in comp.items()}
    # thresholds
    want_exc = {}
    hit = np.zeros(n, dtype=bool)
    sure = np.ones(n, dtype=bool)
    if conf:
        for dv in L.dvs:
            x = np.zeros(n, dtype=bool)
            if dv in conf[1] and dv in have:
                s = sum([v for k, v in exp.items() if k[0] == dv and k[1] != 'replacement'], np.zeros(n))
                lim = reg.RV[dv].sample * conf[1][dv]
                own = np.zeros(n, dtype=bool)
                for k, v in exp.items():
                    if k[0] == dv and k[1] == 'replacement':
                        own |= v > 0
                x = (s > lim) & ~own
                if exact and spec[dv][0] is None and (s == lim).any():
                    ctx.count('at_threshold', int((s == lim)[~own].sum()))
                else:
                    sure &= (np.abs(s - lim) > 1e-9 * np.abs(lim)) | own
            want_exc[dv] = x
            hit |= x
        exp = {k: np.where(hit, 0., v) for k, v in exp.items()}
        for dv in L.dvs:
            v = reg.RV[dv].sample
            f, med = spec[dv]
            ctx.check(len(v) == n and (np.allclose(v, med) if f is None else (v > 0).all()), 'replacement-value', lambda: f'{dv}: {v[:5]}')
            exp[dv, 'replacement', 'threshold_exceedance', '0', '1', '0'] = np.where(hit, v, 0.)
        ctx.check(list(exc.columns) == list(reg.RV) and len(exc) == n, 'exceedance', lambda: f'{exc.columns} {len(exc)}')
        for dv in L.dvs:
            ctx.check((exc[dv].to_numpy(dtype=bool) == want_exc[dv])[sure].all(), 'exceedance',
                      lambda: f'{dv}: observed {exc[dv].to_numpy()[:10]} expected {want_exc[dv][:10]}')
    else:
        ctx.check(exc.shape[1] == 0 or not exc.to_numpy().any(), 'exceedance', lambda: f'{exc}')
    ctx.count('threshold_rows', hit.sum())
    ctx.count('replaced_rows', (repl & ~hit).sum())
    ctx.count('kept_rows', (~repl & ~hit).sum())
    want = {}
    for dv in L.dvs:
        ks = [k for k in exp if k[0] == dv]
        if not ks:
            continue
        f = pbe.U[L.unit[dv]]
        if dv == 'Time':
            ctx.count('time')
            want['repair_time', 'sequential'] = sum(exp[k] for k in ks) / f
            locs = {k[3] for k in ks}
            want['repair_time', 'parallel'] = np.max([sum(exp[k] for k in ks if k[3] == lo) for lo in locs], axis=0) / f
        else:
            want[f'repair_{dv.lower()}', ''] = sum(exp[k] for k in ks) / f
    obs = {(c if isinstance(c, tuple) else (c, '')): agg[c].to_numpy(dtype=float) for c in agg.columns}
    if not ctx.check(set(obs) == set(want) and len(agg) == n, 'columns', lambda: f'{list(obs)} ({len(agg)} rows) expected {list(want)}'):
        return
    for k, v in want.items():
        ctx.count('aggregates')
        ctx.close(obs[k][sure], v[sure], 'aggregate', f'{k} (replaced {np.flatnonzero(repl)[:5]}, threshold {np.flatnonzero(hit)[:5]})',
                  rtol=2e-6, atol=1e-9)
    now = loss.components(a)
    ctx.check(set(now) == set(stored) and all(np.array_equal(now[k], stored[k]) for k in stored), 'sample-changed', 'aggregation changed the component losses')
    ctx.observe(len(L.dvs), bool(conf), repl.any(), hit.any(), a.loss.lf_model.sample is not None, a.loss.ds_model.sample is not None,
                tuple(sorted(conf[1])) if conf else None, repl.all(), hit.all())
