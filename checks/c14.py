"""C14: cloning and expanding demands copy or add exactly the stated columns."""
import numpy as np
import pandas as pd
import pbe

ID = 'C14'
RULE = ('seeded demand samples (raw or generated) and histories of clone / expand requests, valid and invalid, checked '
        'against a model of the sample after every step; the final state is saved, reloaded and used')
QUICK, THOROUGH = 240, 10000
MIN_OBS = {'clones': 150, 'expansions': 100, 'rejected': 40}


def snapshot(a):
    s = pbe.as_dict(a.demand.sample)
    return s, {tuple(map(str, k)): v for k, v in a.demand.user_units.items()}


def case(ctx):
    rng = ctx.rng
    E = []
    for t in rng.permutation(['PGV', 'PGA', 'PFA', 'PID', 'SA_0.5', 'PGD'])[:rng.integers(1, 5)]:
        for lo in rng.permutation(4)[:rng.integers(1, 3)]:
            for d in rng.permutation(3)[:rng.integers(1, 3)]:
                E.append((str(t), int(lo), int(d)))
    n = int(rng.choice([1, 3, 20]))
    U = {**pbe.EDP_UNITS, 'SA_0.5': pbe.ACC, 'PGD': pbe.LEN, 'PGV': pbe.VEL}
    rows, si, units = [], {}, {}
    for e in E:
        u = pbe.pick(rng, U[e[0]])
        k = tuple(map(str, e))
        v = np.array([pbe.sig(x, 8) for x in 10 ** rng.uniform(-2, 2, n)])
        rows.append(v)
        si[k], units[k] = v * pbe.U[u], u
    cols = ['-'.join(map(str, e)) for e in E]
    df = pd.DataFrame({c: list(v) for c, v in zip(cols, rows)}, dtype=object)
    df = pd.concat([pd.DataFrame([[units[tuple(map(str, e))] for e in E]], columns=cols, index=['Units']), df])
    a = pbe.assessment(seed=int(rng.integers(1e6)))
    a.demand.load_sample(df)
    gen = bool(rng.random() < .4)
    trace = []
    pending = None
    if gen:
        a.demand.calibrate_model({'ALL': {'DistributionFamily': 'empirical'}})

    def random_clone():
        keys = [k for k in si if rng.random() < .5] or [pbe.pick(rng, list(si))]
        m, used = {}, set(si)
        for k in keys:
            used.discard(k)
        for k in keys:
            out = []
            for _ in range(int(rng.integers(1, 4))):
                c = (k[0] if rng.random() < .8 else pbe.pick(rng, ['XYZ', 'PGV']), str(rng.integers(0, 15)), str(rng.integers(0, 4)))
                if c not in used:
                    used.add(c)
                    out.append(c)
            if not out:
                out = [('NEW' + k[0], k[1], k[2])]
                used.add(out[0])
            m[k] = out
        return m

    def apply_clone(m):
        for k, out in m.items():
            v, u = si.pop(k), units.pop(k)
            new[k] = [(c, v, u) for c in out]
        for lst in new.values():
            for c, v, u in lst:
                si[c], units[c] = v.copy(), u

    if gen:
        cfg = {'SampleSize': n, 'PreserveRawOrder': True}
        m = random_clone() if rng.random() < .7 else {}
        new = {}
        if m:
            cfg['DemandCloning'] = {'-'.join(k): ['-'.join(c) for c in v] for k, v in m.items()}
            apply_clone(m)
            ctx.count('clones')
            trace.append(('generate+clone', cfg['DemandCloning']))
        c0 = repr(cfg)
        a.demand.generate_sample(cfg)
        ctx.check(repr(cfg) == c0, 'mutates_config', 'generate_sample changed its configuration')
    for _ in range(int(rng.integers(1, 5))):
        kind = pbe.pick(rng, ['clone', 'clone', 'expand', 'expand', 'bad_clone', 'bad_expand', 'unknown'])
        if kind == 'clone':
            m = random_clone()
            cfg = {'-'.join(k): ['-'.join(c) for c in v] for k, v in m.items()}
            if not cfg:
                continue
            new = {}
            trace.append(('clone', cfg))
            c0 = repr(cfg)
            a.demand.clone_demands(cfg)
            ctx.check(repr(cfg) == c0, 'mutates_config', 'clone_demands changed its configuration')
            apply_clone(m)
            ctx.count('clones')
        elif kind == 'unknown':
            trace.append(('unknown', 1))
            a.demand.clone_demands({'NOPE-1-1': ['NOPE-2-1', 'NOPE-3-1']})
        elif kind == 'expand':
            lab, lo, d = pbe.pick(rng, ['ONE', 'SA_9', 'PFA']), str(rng.integers(20, 30)), str(rng.integers(0, 3))
            if (lab, lo, d) in si:
                continue
            u = pbe.pick(rng, ['g', 'ft', 'unitless', 'inps'])
            scalar = rng.random() < .5
            v = pbe.sig(rng.uniform(.1, 5), 8) if scalar else np.array([pbe.sig(x, 8) for x in rng.uniform(.1, 5, n)])
            kw = {}
            if rng.random() < .3:
                lo, d = '0', '1'
                if (lab, lo, d) in si:
                    continue
            else:
                kw = {'location': lo, 'direction': d}
            trace.append(('expand', lab, lo, d, u))
            v0 = np.copy(v)
            a.demand.expand_sample(lab, v, u, **kw)
            ctx.check(np.array_equal(v, v0), 'mutates_value', '')
            si[(lab, lo, d)], units[(lab, lo, d)] = np.full(n, 1.) * v * pbe.U[u], u
            ctx.count('expansions')
        else:
            s0, u0 = snapshot(a)
            try:
                if kind == 'bad_clone':
                    k = pbe.pick(rng, list(si))
                    o = pbe.pick(rng, list(si))
                    nm = 'DUP-1-1'
                    bad = {'-'.join(k): [nm, nm]} if o == k else {'-'.join(k): [nm], '-'.join(o): ['OK-1-1', nm]}
                    a.demand.clone_demands(bad)
                else:
                    a.demand.expand_sample('BAD', np.ones(n + 1), 'g')
                ctx.violate('inconsistent_request_accepted', kind)
            except ValueError:
                ctx.count('rejected')
            s1, u1 = snapshot(a)
            ctx.check(set(s0) == set(s1) and all(np.array_equal(s0[k], s1[k]) for k in s0) and u0 == u1, 'rejected_but_changed', kind)
            trace.append((kind,))
        ctx.observe(kind, gen, n)
        verify(ctx, a, si, units, trace)
    verify(ctx, a, si, units, trace)
    ctx.describe(columns=cols, n=n, history=[str(t)[:120] for t in trace])
    # the result remains usable
    p = str(ctx.tmp() / 's.csv')
    a.demand.save_sample(p)
    b = pbe.assessment()
    b.demand.load_sample(p)
    got = pbe.as_dict(b.demand.sample)
    ctx.check(set(got) == set(si), 'reloaded_labels', str(sorted(got)))
    for k in si:
        ctx.close(got[k], si[k], 'reloaded_values', f'{k} {trace}', rtol=1e-8)
    if any(k[0] == 'PID' for k in si):
        a.demand.estimate_RID_and_adjust_sample({'yield_drift': .01})
        ctx.check({('RID', *k[1:]) for k in si if k[0] == 'PID'} <= set(pbe.as_dict(a.demand.sample)), 'rid_after_clone', str(trace))


def verify(ctx, a, si, units, trace):
    got = pbe.as_dict(a.demand.sample)
    if not ctx.check(len(got) == a.demand.sample.shape[1] and set(got) == set(si), 'columns',
                     lambda: f'{sorted(set(got) ^ set(si))[:5]} after {trace}'):
        return
    for k in si:
        ctx.close(got[k], si[k], 'values', f'{k} after {trace}', rtol=1e-8)
    uu = a.demand.user_units
    for k, u in units.items():
        ctx.check(uu.get(k) == u, 'units', lambda: f'{k}: {uu.get(k)} expected {u} after {trace}')
    vals, un = a.demand.save_sample(save_units=True)
    ctx.check(set(map(tuple, [[str(x) for x in c] for c in vals.columns])) == set(si), 'saved_columns', '')
    for k in si:
        ctx.close(np.asarray(vals[k], float).ravel() * pbe.U[un[k]], si[k], 'saved_values', f'{k} after {trace}', rtol=1e-8)
