"""C19: damage processes move damage exactly as prescribed."""
import numpy as np
import dmg
import pbe

ID = 'C19'
RULE = ('seeded assets and damage processes (1-14 numbered tasks, location matching, several events per task, single and list '
        'targets, ALL, NA, self-targets, unknown components); the damage without the process, transformed by an independent '
        'sequential interpreter of the process, must equal the damage with it, per block and in quantities')
QUICK, THOROUGH = 96, 5000
MIN_OBS = {'tasks': 250, 'events_fired': 500, 'blocks': 1500, 'unknown': 15}


def interpret(ds, process):
    """ds: {(cmp,loc,dir,uid,block): states}, changed in place, task by task in numeric order."""
    fired = 0
    for task in sorted(process, key=lambda k: int(k.split('_')[0])):
        src = task.split('_')[1]
        by_loc = src.endswith('-LOC')
        src = src.removesuffix('-LOC')
        mine = [k for k in ds if k[0] == src]
        if not mine:
            continue
        for ev, targets in process[task].items():
            n = int(ev[2:])
            for t in targets if isinstance(targets, list) else [targets]:
                tc, te = t.split('_')
                val = -1 if te == 'NA' else int(te[2:])
                for loc in (sorted({k[1] for k in mine}) if by_loc else [None]):
                    top = np.max([ds[k] for k in mine if loc in (None, k[1])], axis=0)
                    hit = top == n
                    fired += int(hit.any())
                    for k in ds:
                        if (k[0] == tc or (tc == 'ALL' and k[0] != src)) and loc in (None, k[1]):
                            ds[k] = np.where(hit, val, ds[k])
    return fired


def draw_process(rng, m, names):
    out = {}
    n = int(rng.choice([1, 1, 2, 3, 5, 13]))
    nums = sorted(rng.choice(np.arange(1, 30), n, replace=False)) if rng.random() < .5 else list(range(1, n + 1))
    for i in nums:
        src = pbe.pick(rng, names)
        nd = m.cmps[src]['nds'] if src in m.cmps else 1
        ev = {}
        for d in rng.permutation(np.arange(0, nd + 1))[:int(rng.integers(1, 4))]:
            t = []
            for _ in range(int(rng.integers(1, 4))):
                tc = pbe.pick(rng, [*names, 'ALL'])
                k = m.cmps[tc]['nds'] if tc in m.cmps else min(c['nds'] for c in m.cmps.values())
                t.append(f'{tc}_' + ('NA' if rng.random() < .3 else f'DS{rng.integers(0, k + 1)}'))
            ev[f'DS{d}'] = t if rng.random() < .6 or len(t) > 1 else t[0]
        out[f'{i}_{src}{"-LOC" if rng.random() < .4 else ""}'] = ev
    keys = list(out)
    return {keys[i]: out[keys[i]] for i in rng.permutation(len(keys))}


def case(ctx):
    rng = ctx.rng
    m = dmg.Model(rng, ncmp=int(rng.integers(2, 5)), stories=11 if rng.random() < .2 else None, weights=bool(rng.random() < .3), n=int(rng.choice([5, 20, 60])))
    names = list(m.cmps)
    if rng.random() < .25:
        names.append('X.99.999')
        ctx.count('unknown')
    process = draw_process(rng, m, names)
    seed = int(rng.integers(1e6))
    ctx.describe(process=process, groups=len(m.pgs))
    a = m.build(seed)
    a.damage.calculate()
    ds = dmg.ds_dict(a)
    before = dmg.qty_dict(a)
    want = {k: v.copy() for k, v in ds.items()}
    fired = interpret(want, process)
    ctx.count('tasks', len(process))
    ctx.count('events_fired', fired)
    if all((v == -1).all() for v in want.values()):
        return      # nothing left to report
    b = m.build(seed)
    keep = repr(process)
    b.damage.calculate(dmg_process=process, block_batch_size=1000)
    ctx.check(repr(process) == keep, 'process_changed', 'the process definition was modified')
    got = dmg.ds_dict(b)
    if not ctx.check(set(got) == set(want), 'blocks', ''):
        return
    for k, v in want.items():
        ctx.count('blocks')
        if not ctx.check((got[k] == v).all(), 'damage_state', lambda: f'{k}: {got[k][:8]} expected {v[:8]} without process {ds[k][:8]}; {process}'):  # noqa: B023
            return
    q = pbe.as_dict(b.asset.cmp_sample)
    w = dmg.expected_quantities(m, want, q)
    g = dmg.qty_dict(b)
    if ctx.check(set(w) == set(g), 'states', lambda: f'{sorted(set(w) ^ set(g))[:4]}'):
        for k, v in w.items():
            ctx.close(g[k], v, 'quantity', str(k))
        # components that are never targeted keep their damage
        targeted = {t.split('_')[0] for e in process.values() for ts in e.values() for t in (ts if isinstance(ts, list) else [ts])}
        for k, v in before.items():
            if k[0] not in targeted and 'ALL' not in targeted:
                ctx.close(g[k], v, 'untargeted_changed', str(k))
        # quantities are kept wherever nothing was removed
        for pk in m.pg_keys():
            tot = np.nansum([np.zeros(m.n), *[v for k, v in g.items() if k[:4] == pk]], axis=0)
            na = [want[pk + (str(x + 1),)] == -1 for x in range(next(p['blocks'] for p, kk in zip(m.pgs, m.pg_keys()) if kk == pk))]
            ctx.close(tot, q[pk] * (1 - np.mean(na, axis=0)), 'not_conserved', str(pk))
    ctx.observe(len(process), fired > 0, any('-LOC' in t for t in process), 'NA' in keep, 'ALL' in keep)
    bad = {'1_' + list(m.cmps)[0]: pbe.pick(rng, [{'LS1': f'{list(m.cmps)[-1]}_DS1'}, {'DS0': f'{list(m.cmps)[-1]}_XX'}])}
    try:
        m.build(seed).damage.calculate(dmg_process=bad)
        ctx.check(False, 'invalid_process_accepted', str(bad))
    except ValueError:
        ctx.count('rejected')
