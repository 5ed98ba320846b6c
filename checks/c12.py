"""C12: calibration assigns the configured, estimated marginals; generated demands follow them."""
import contextlib
import copy
import inspect
import io

import numpy as np
import pandas as pd
import pbe
import refuq
from pelicun import uq
from runner import Skip

ID = 'C12'
RULE = ('seeded demand samples and calibration settings (family, limits, units, added uncertainty per type) or demand '
        'models given as marginals; calibrated parameters against moments / direct fits, samples against the marginals')
QUICK, THOROUGH = 160, 5000
MIN_OBS = {'marginals_fitted': 150, 'sampled': 300}
ASSUMPTIONS = ['statistical bounds on sampled marginals and correlations are at 6 sigma or wider']
FAMS = ['lognormal', 'normal', 'normal_std', 'normal_cov', 'empirical']


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def case(ctx):
    [calibrate, calibrate, model][ctx.index % 3](ctx)


def edps(rng):
    out = []
    for t in rng.permutation(['PFA', 'PFV', 'PID', 'SA_0.5', 'SA_1.0', 'SAX', 'SA', 'PFAX_1'])[:rng.integers(1, 5)]:
        for lo in range(int(rng.integers(1, 3))):
            for d in range(1, int(rng.integers(2, 4))):
                out.append((str(t), lo, d))
    return out


def calibrate(ctx):
    rng = ctx.rng
    E = edps(rng)
    n = int(rng.choice([12, 40, 150]))
    types = sorted({e[0] for e in E})
    units = {t: pbe.pick(rng, pbe.EDP_UNITS[t.split('_')[0]]) for t in types}
    load = rng.uniform(.2, .9)
    z0 = rng.normal(size=n)
    si = {}
    for e in E:
        sc = pbe.SCALE[e[0].split('_')[0]] * rng.uniform(.5, 2)
        z = load * z0 + np.sqrt(1 - load ** 2) * rng.normal(size=n)
        x = sc * np.exp(rng.uniform(.2, .5) * z) if rng.random() < .6 else sc * np.clip(1 + .25 * z, .05, None)
        f = pbe.U[units[e[0]]]
        si[tuple(map(str, e))] = np.array([pbe.sig(v, 8) for v in x / f]) * f
    cols = ['-'.join(map(str, e)) for e in E]
    df = pd.DataFrame({c: si[tuple(map(str, e))] / pbe.U[units[e[0]]] for c, e in zip(cols, E)}).astype(object)
    df = pd.concat([pd.DataFrame([[units[e[0]] for e in E]], columns=cols, index=['Units']), df])

    # settings: ALL, then by type (the part of the type before '_')
    def settings(vals, allow_limits, f_all):
        fam = pbe.pick(rng, FAMS) if not f_all else pbe.pick(rng, FAMS[:4])
        s = {'DistributionFamily': fam}
        lim = {}
        u = pbe.pick(rng, [None, units_of]) if units_of else None
        f = pbe.U[u] if u else 1.
        if u:
            s['Unit'] = u
        if rng.random() < .4 and allow_limits:
            kind = pbe.pick(rng, ['Truncate', 'Censor'])
            if rng.random() < .8:
                v = pbe.sig(float(np.quantile(vals, .93)) / f)
                s[kind + 'Upper'] = pbe.pick(rng, [v, str(v)])
                lim[kind + 'Upper'] = v * f
            if rng.random() < .5:
                v = pbe.sig(float(np.quantile(vals, .05)) / f)
                s[kind + 'Lower'] = pbe.pick(rng, [v, str(v)])
                lim[kind + 'Lower'] = v * f
            if rng.random() < .3:
                s.setdefault(kind + 'Lower', pbe.pick(rng, ['', 'N/A', 'NaN']))
        inc = None
        if rng.random() < .3:
            v = pbe.sig(rng.uniform(.05, .5))
            s['AddUncertainty'] = pbe.pick(rng, [v, str(v)])
            inc = v * (f if fam == 'normal_std' else 1.)
        return s, fam, lim, inc

    units_of = None
    cfg, per = {}, {}
    cfg['ALL'], fam, lim, inc = settings(None, False, rng.random() < .85)
    for e in E:
        per[tuple(map(str, e))] = [fam, dict(lim), inc]
    groups = sorted({t.split('_')[0] for t in types})
    used_limits = False
    for g in groups:
        if rng.random() < .6:
            mem = [e for e in E if e[0].split('_')[0] == g]
            units_of = units[mem[0][0]]
            vals = np.concatenate([si[tuple(map(str, e))] for e in mem])
            s, fam, lim, inc = settings(vals, not used_limits, False)
            used_limits |= bool(lim)
            cfg[g] = s
            for e in mem:
                k = tuple(map(str, e))
                per[k] = [fam, {**per[k][1], **lim}, inc if 'AddUncertainty' in s else per[k][2]]
    a = pbe.assessment({'Sampling': {'SamplingMethod': str(pbe.pick(rng, ['LHS', 'MonteCarlo', 'LHS_midpoint']))}},
                       seed=int(rng.integers(1e6)))
    a.demand.load_sample(df)
    raw = a.demand.sample.copy(deep=True)
    # expected parameters
    order = [tuple(map(str, c)) for c in raw.columns]
    keep = np.ones(n, bool)
    cens = 0
    for kind in ('Censor', 'Truncate'):
        k2 = np.ones(n, bool)
        for k in order:
            lm = per[k][1]
            if kind + 'Upper' in lm:
                k2 &= si[k] < lm[kind + 'Upper']
            if kind + 'Lower' in lm:
                k2 &= si[k] > lm[kind + 'Lower']
        if kind == 'Censor':
            cens = int((~k2).sum())
        keep &= k2
    fit = [k for k in order if per[k][0] != 'empirical']
    lims = lambda kind: np.array([[per[k][1].get(kind + s, np.nan) for s in ('Lower', 'Upper')] for k in fit])  # noqa: E731
    anylim = any(per[k][1] for k in order)
    exp = {}
    extreme = False
    if fit:
        X = np.array([raw[k].to_numpy(dtype=float).ravel()[keep] for k in fit])
        if not anylim:
            Y = [np.log(x) if per[k][0] == 'lognormal' else x for k, x in zip(fit, X)]
            for k, y in zip(fit, Y):
                m, s = y.mean(), y.std()
                exp[k] = {'lognormal': (np.exp(m), s), 'normal_std': (m, s)}.get(per[k][0], (m, s / abs(m)))
            Z = np.array([(y - y.mean()) / y.std() for y in Y])
            R = Z @ Z.T / Z.shape[1]
            extreme = np.abs(Z).max() > 6   # beyond this the probabilities have no digits left
    cfg0 = repr(cfg)
    ctx.describe(config=cfg, columns=cols, units=units, n=n)
    # with limits the optimizer is judged by C05: here the monitor records what is fitted and what came out
    calls = []
    orig = uq.fit_distribution_to_sample

    def recorder(*args, **kw):
        b = inspect.signature(orig).bind(*args, **kw)
        b.apply_defaults()
        rec = {k: copy.deepcopy(v) for k, v in b.arguments.items() if k != 'logger_object'}
        calls.append(rec)
        rec['out'] = orig(*args, **kw)
        return rec['out']

    uq.fit_distribution_to_sample = recorder
    try:
        quiet(a.demand.calibrate_model, cfg)
    except ValueError:
        if not (anylim and calls and 'out' not in calls[-1]):
            raise
        # these limits cannot be fitted to this sample; what was to be fitted is still judged
    finally:
        uq.fit_distribution_to_sample = orig
    if anylim and fit:
        if len(calls) != 1 or np.shape(calls[0]['raw_sample']) != X.shape:
            ctx.check(len(calls) != 1, 'fitted_sample', lambda: f'{np.shape(calls[0]["raw_sample"])} expected {X.shape}')
            raise Skip
        c = calls[0]
        ctx.count('fits_recorded')
        ctx.close(c['raw_sample'], X, 'fitted_sample', 'sample used for the fit', rtol=1e-9)
        ctx.check(list(np.broadcast_to(c['distribution'], len(fit))) == [per[k][0] for k in fit], 'fitted_family', str(c['distribution']))
        ctx.check(int(c['censored_count'] or 0) == cens, 'censored_count', f'{c["censored_count"]} expected {cens}')
        for nm, kind in (('detection_limits', 'Censor'), ('truncation_limits', 'Truncate')):
            ctx.close(np.asarray(c[nm], float), lims(kind), nm, 'limits used for the fit', rtol=1e-7)
        if 'out' not in c:
            raise Skip
        th, R = c['out']
        exp = {k: tuple(t) for k, t in zip(fit, th)}
    ctx.check(repr(cfg) == cfg0, 'mutates_config', 'calibration configuration changed')
    ctx.check(a.demand.sample.equals(raw), 'mutates_sample', 'raw demand sample changed by the calibration')
    mp, rho = a.demand.marginal_params, a.demand.correlation
    if not ctx.check(set(tuple(map(str, i)) for i in mp.index) == set(per), 'demands', str(list(mp.index))):
        return
    for k in order:
        r = mp.loc[k]
        fam, lm, inc = per[k]
        ctx.check(r['Family'] == fam, 'family', f'{k}: {r["Family"]} expected {fam}')
        if fam == 'empirical':
            ctx.close(a.demand.empirical_data[k].to_numpy(dtype=float).ravel(), si[k][keep], 'empirical_data', str(k), rtol=1e-9)
            continue
        t0, t1 = exp[k]
        if inc:
            t1 = np.hypot(t1, inc)
            ctx.count('uncertainty_added')
        ctx.close([r['Theta_0'], r['Theta_1']], [t0, t1], 'parameters', f'{k} {per[k]}', rtol=1e-6)
        ctx.close([r['TruncateLower'], r['TruncateUpper']], [lm.get('TruncateLower', np.nan), lm.get('TruncateUpper', np.nan)],
                  'truncation', f'{k}', rtol=1e-7)
        ctx.count('marginals_fitted')
        ctx.observe(fam, 'inc' if inc else '', *sorted(lm))
    if fit and np.linalg.eigvalsh(R).min() > 1e-6 and not extreme:
        got = np.array([[rho.loc[i, j] for j in fit] for i in fit], float).reshape(len(fit), len(fit))
        ctx.close(got, R, 'correlation', '', rtol=1e-5, atol=1e-7)
    # sample
    N = int(rng.choice([n, 400, 1500]))
    order_flag = bool(rng.random() < .4)
    if not fit or np.linalg.eigvalsh(R).min() > 1e-6:
        a.demand.generate_sample({'SampleSize': N, 'PreserveRawOrder': order_flag})
        T = {}
        for k in order:
            if per[k][0] == 'empirical':
                T[k] = ('empirical', si[k][keep], None, None)
            else:
                r = mp.loc[k]
                T[k] = (per[k][0], (float(r['Theta_0']), float(r['Theta_1'])), float(r['TruncateLower']), float(r['TruncateUpper']))
        judge(ctx, a.demand.sample, N, T, fit, R if fit else None, order_flag, a.options.sampling_method)
    with_units = a.demand.save_sample(save_units=True)
    for k in order:
        ctx.check(with_units[1][k] == units[k[0]], 'units_kept', str(k))


def judge(ctx, s, N, T, fit, R, order_flag, method):
    got = pbe.as_dict(s)
    if not ctx.check(set(got) == set(T) and len(s) == N, 'sample_shape', f'{len(s)} x {sorted(got)[:4]}'):
        return
    U = {}
    for k, (fam, p, lo, hi) in T.items():
        x = got[k]
        ctx.count('sampled')
        if fam == 'empirical':
            ctx.check(np.isin(np.round(x, 12), np.round(p, 12)).all(), 'empirical_values', str(k))
            if order_flag:
                ctx.close(x, np.resize(p, N), 'raw_order', str(k), rtol=1e-9)
            elif method.startswith('LHS'):
                ctx.check((N < 2 * len(p) and N != len(p)) or set(np.round(x, 9)) == set(np.round(p, 9)), 'empirical_coverage', str(k))
            continue
        if fam == 'deterministic':
            ctx.close(x, np.full(N, p[0]), 'deterministic', str(k))
            continue
        u = np.sort(refuq.cdf(fam, p, x, lo, hi))
        if not np.isnan(lo):
            ctx.check(x.min() >= lo * (1 - 1e-9), 'below_truncation', str(k))
        if not np.isnan(hi):
            ctx.check(x.max() <= hi * (1 + 1e-9), 'above_truncation', str(k))
        D = np.abs(u - (np.arange(N) + .5) / N).max()
        ctx.check(D * np.sqrt(N) < 3.2, 'marginal_distribution', lambda: f'{k} {fam} {p} limits {lo, hi}: KS distance {D:.3f}, N={N}')
        U[k] = refuq.PhiInv(np.clip(refuq.cdf(fam, p, x, lo, hi), 1e-12, 1 - 1e-12))
    if R is not None and N >= 300:
        for i, a in enumerate(fit):
            for j in range(i):
                r = np.corrcoef(U[a], U[fit[j]])[0, 1]
                # atanh transform: standard error 1/sqrt(N-3)
                d = np.arctanh(np.clip(r, -.999999, .999999)) - np.arctanh(np.clip(R[i, j], -.999999, .999999))
                ctx.check(abs(d) * np.sqrt(N - 3) < 6.5, 'sample_correlation', lambda: f'{a} {fit[j]}: {r:.3f} expected {R[i, j]:.3f}')
                ctx.count('correlations')


def model(ctx):
    """A demand model stated by its marginals (and correlation)."""
    rng = ctx.rng
    E = edps(rng)
    rows, T, idx = [], {}, []
    emp_n = int(rng.integers(3, 30))
    with_rho = rng.random() < .5
    emp, empu = {}, {}
    for e in E:
        fam0 = e[0].split('_')[0]
        u = pbe.pick(rng, pbe.EDP_UNITS[fam0])
        f = pbe.U[u]
        fam = str(pbe.pick(rng, ['lognormal', 'normal', 'normal_std', 'uniform'] + ([] if with_rho else ['empirical', ''])))
        m = pbe.SCALE[fam0] * rng.uniform(.5, 2)
        t0, t1 = pbe.sig(m / f), {'lognormal': .4, 'normal': .3, 'normal_std': pbe.sig(m / f * .3), 'uniform': pbe.sig(2 * m / f)}.get(fam, np.nan)
        lo = hi = np.nan
        if fam not in ('', 'empirical', 'uniform') and rng.random() < .4:
            lo, hi = pbe.sig(t0 * .7), pbe.sig(t0 * 1.5)
            if fam.startswith('normal') and rng.random() < .4:
                # demands that cannot be negative
                t1, lo = pbe.sig(t0 * .9) if fam == 'normal_std' else .9, 0.
        k = tuple(map(str, e))
        if fam == 'empirical':
            v = np.array([pbe.sig(x) for x in m * rng.uniform(.5, 2, emp_n) / f])
            emp['-'.join(k)], empu['-'.join(k)] = v, u
            T[k] = ('empirical', v * f, None, None)
            t0 = np.nan
        elif fam == '':
            T[k] = ('deterministic', (t0 * f,), None, None)
        else:
            s1 = f if fam in ('normal_std', 'uniform') else 1
            T[k] = (fam, (t0 * f, t1 * s1), lo * f, hi * f)
        rows.append([u, fam or np.nan, t0, t1, lo, hi])
        idx.append('-'.join(k))
    df = pd.DataFrame(rows, index=idx, columns=['Units', 'Family', 'Theta_0', 'Theta_1', 'TruncateLower', 'TruncateUpper'])
    for c in ('Family', 'Theta_1', 'TruncateLower', 'TruncateUpper'):
        if df[c].isna().all():
            df = df.drop(columns=c)
    src = {'marginals': df}
    R = None
    order = [tuple(i.split('-')) for i in idx]
    if with_rho and len(E) > 1:
        A = rng.normal(size=(len(E), len(E) + 2))
        R = A @ A.T
        d = np.sqrt(np.diag(R))
        R = R / d[:, None] / d
        perm = rng.permutation(len(E))
        src['correlation'] = pd.DataFrame(R, index=idx, columns=idx).iloc[perm, perm] if rng.random() < .5 else pd.DataFrame(R, index=idx, columns=idx)
    if emp:
        em = pd.DataFrame(emp).astype(object)
        src['empirical'] = pd.concat([pd.DataFrame([empu], index=['Units'])[list(emp)], em])
    a = pbe.assessment({'Sampling': {'SamplingMethod': str(pbe.pick(rng, ['LHS', 'MonteCarlo']))}}, seed=int(rng.integers(1e6)))
    if rng.random() < .4:
        p = str(ctx.tmp() / 'D')
        for k, v in src.items():
            v.to_csv(f'{p}_{k}.csv')
        a.demand.load_model(p)
        how = 'file'
    else:
        copies = {k: v.copy(deep=True) for k, v in src.items()}
        a.demand.load_model(src)
        ctx.check(all(v.equals(copies[k]) for k, v in src.items()), 'mutates_input', 'caller tables changed')
        how = 'dict'
    ctx.describe(source=how, marginals=df.astype(str).to_dict('index'), correlated=R is not None)
    N = int(rng.choice([50, 400, 1500]))
    flag = bool(rng.random() < .5)
    a.demand.generate_sample({'SampleSize': N, 'PreserveRawOrder': flag})
    judge(ctx, a.demand.sample, N, T, order, R, flag, a.options.sampling_method)
    ctx.observe('model', how, R is not None, *sorted({t[0] for t in T.values()}))
    uu = a.demand.save_sample(save_units=True)[1]
    for i, u in zip(idx, df['Units']):
        ctx.check(uu[tuple(i.split('-'))] == u, 'units_kept', i)
