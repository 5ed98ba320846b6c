"""C08: configuration merging is exact and isolated."""
import copy
import json
import math

import numpy as np
import pbe

ID = 'C08'
RULE = ('seeded user configurations (subsets of the defaults with other values, extra keys, conflicting types) merged directly and through '
        'several assessments, results compared with an independent merge of the shipped defaults; options of one assessment are then '
        'modified and the others observed; histories of get, update and is_specified on nested dictionaries compared with a model')
QUICK, THOROUGH = 400, 20000
MIN_OBS = {'nested': 600, 'merged': 300, 'conflicts': 60, 'isolated': 200, 'paths': 4000, 'updates': 1500, 'empties': 300}


def merge(user, default):
    """Every key of either side; the user's leaves win."""
    out = {k: copy.deepcopy(v) for k, v in user.items()}
    for k, v in default.items():
        if k not in out:
            out[k] = copy.deepcopy(v)
        elif isinstance(v, dict):
            if not isinstance(out[k], dict):
                raise ValueError(k)
            out[k] = merge(out[k], v)
        elif isinstance(out[k], dict):
            raise ValueError(k)
    return out


def case(ctx):
    from pelicun import base
    rng = ctx.rng
    with open(base.pelicun_path / 'settings/default_config.json') as f:
        default = json.load(f)['Options']
    user, bad = draw(rng, default), False
    if rng.random() < .2:
        # a mapping where a value is expected or the other way round
        bad = True
        k = pbe.pick(rng, list(default))
        if isinstance(default[k], dict):
            user[k] = pbe.pick(rng, [1, 'x', None, [1]])
        else:
            user[k] = pbe.pick(rng, [{}, {'a': 1}])
    ctx.describe(user=json.loads(json.dumps(user, default=repr)), bad=bad)
    keep = copy.deepcopy(user)
    if bad:
        ctx.count('conflicts')
        for f in (lambda: base.merge_default_config(copy.deepcopy(user)), lambda: pbe.assessment(user)):
            try:
                f()
                ctx.violate('conflict', f'conflicting types accepted: {k}={user[k]!r}')
            except ValueError:
                pass
        ctx.check(same(user, keep), 'caller-changed', 'a rejected configuration was changed')
    else:
        want = merge(user, default)
        got = base.merge_default_config(copy.deepcopy(user))
        ctx.count('merged')
        ctx.check(same(got, want), 'merged', lambda: diff(got, want))
        assessments(ctx, user, default, want)
        ctx.check(same(user, keep), 'caller-changed', lambda: f'the configuration of the caller was changed: {diff(user, keep)}')
    nested(ctx)
    for _ in range(2):
        paths(ctx)
    ctx.check(same(base.load_default_options(), default), 'defaults-changed', 'the defaults were changed')
    with open(base.pelicun_path / 'settings/default_config.json') as f:
        ctx.check(same(json.load(f)['Options'], default), 'defaults-changed', 'the file of the defaults was changed')
    ctx.check(same(base.merge_default_config(None), default), 'defaults', 'defaults differ without a configuration')
    ctx.check(same(base.merge_default_config({}), default), 'defaults', 'defaults differ for an empty configuration')


LEAVES = [None, 0, 1, -2.5, False, True, '', 'x', 'None', [], [1, {'k': None}], float('nan')]


def tree(rng, depth, like=None):
    """A random nested dictionary, partly with the keys of another one (and its kind of values there)."""
    out = {}
    for k in rng.permutation(['a', 'b', 'c', 'd', 'e'])[:rng.integers(0, 5)]:
        sub = like.get(str(k)) if like is not None and str(k) in like else None
        known = like is not None and str(k) in like
        if (isinstance(sub, dict) if known else rng.random() < .4) and (depth or known):
            out[str(k)] = tree(rng, depth - 1, sub)
        else:
            out[str(k)] = copy.deepcopy(LEAVES[int(rng.integers(len(LEAVES)))])
    return out


def nested(ctx):
    """Values given explicitly win, whatever they are."""
    from pelicun import base
    for _ in range(3):
        primary = tree(ctx.rng, 3)
        update = tree(ctx.rng, 3, primary)
        want, was = merge(update, primary), copy.deepcopy(primary)
        got = copy.deepcopy(update)
        base.update_vals(got, primary, 'user', 'default')
        ctx.count('nested', bool(update))
        ctx.check(same(got, want), 'merged', lambda: f'{json.dumps(update)} over {json.dumps(was)}: {diff(got, want)}')
        ctx.check(same(primary, was), 'defaults-changed', 'merging changed the defaults')


def draw(rng, default):
    user = {}
    p = rng.random()
    pool = {'Seed': [0, 1, 42, None], 'SampleSize': [0, 1, 500], 'SamplingMethod': ['LHS', 'LHS_midpoint', 'MonteCarlo'], 'PFA': [0, -1, 2],
            'PFV': [0, 3], 'ALL': [1., 1.5, 0], 'RepairCostAndTimeCorrelation': [0., .5, 1], 'LogFile': [None], 'UnitsFile': [None]}

    def fill(d, out):
        for k, v in d.items():
            if rng.random() > p:
                continue
            if isinstance(v, dict):
                out[k] = {}
                fill(v, out[k])
            elif isinstance(v, bool):
                out[k] = bool(rng.random() < .5)
            else:
                out[k] = pbe.pick(rng, pool.get(k, [v]))
    fill(default, user)
    extra = {'DemandOffset': [('PID', 1), ('SA_0.5', -2)], 'NonDirectionalMultipliers': [('PFA', 1.1), ('PID', 0.)], 'Sampling': [('Note', 'x')]}
    for k, l in extra.items():
        for a, b in l:
            if rng.random() < .3:
                user.setdefault(k, {})[a] = b
    if rng.random() < .2:
        user['Custom'] = pbe.pick(rng, [1, None, {'a': {'b': [1, {'c': 2}]}}, []])
    user['Verbose'] = False
    user['PrintLog'] = False
    return user


def same(a, b):
    """Same type of container and values; 0, 0.0, False and None are different things."""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return isinstance(a, bool) == isinstance(b, bool) and bool(a == b)


def diff(a, b):
    return f'got {json.dumps(a, default=repr)[:600]} expected {json.dumps(b, default=repr)[:600]}'


FIELDS = {'sampling_method': ('Sampling', 'SamplingMethod'), 'list_all_ds': ('ListAllDamageStates',), 'units_file': ('UnitsFile',),
          'demand_offset': ('DemandOffset',), 'nondir_multi_dict': ('NonDirectionalMultipliers',),
          'rho_cost_time': ('RepairCostAndTimeCorrelation',), 'eco_scale': ('EconomiesOfScale',), 'error_setup': ('ErrorSetup',), 'seed': ('Seed',)}


def options(a, want):
    out = {}
    for f, p in FIELDS.items():
        w = want
        for k in p:
            w = w[k]
        out[f] = w
    return {f: getattr(a.options, f) for f in out}, out


def assessments(ctx, user, default, want):
    from pelicun import assessment
    rng = ctx.rng
    other = draw(rng, default)
    wother = merge(other, default)
    made = []
    for c, w in [(user, want), (None, default), (other, wother), (user, want)]:
        a = assessment.Assessment(c) if c is not None else assessment.Assessment()
        g, e = options(a, w)
        ctx.check(same(g, e), 'options', lambda: f'options: {diff(g, e)}')
        lg = a.options.log
        ctx.check(lg.verbose == w['Verbose'] and lg.log_show_ms == w['LogShowMS'] and lg.print_log == w['PrintLog'], 'options', 'logger settings differ')
        made.append((a, w))
    # an assessment adjusts its own options
    i = int(rng.integers(len(made)))
    o = made[i][0].options
    o.demand_offset['PFA'] = 77
    o.nondir_multi_dict['ALL'] = 9.9
    o.eco_scale['AcrossFloors'] = 'changed'
    o.error_setup['Loss'] = {}
    o.sampling_method = 'changed'
    o.list_all_ds = 'changed'
    o.rho_cost_time = .123
    o.seed = 99
    made.append((assessment.Assessment(user), want))
    for j, (a, w) in enumerate(made):
        if j != i:
            ctx.count('isolated')
            g, e = options(a, w)
            ctx.check(same(g, e), 'shared-options', lambda: f'options of assessment {j} changed with those of {i}: {diff(g, e)}')
    ctx.observe('merge', len(user), tuple(sorted(k for k in user if isinstance(user[k], dict))))


MISSING = object()


def lookup(d, path):
    for k in path:
        if not isinstance(d, dict) or k not in d:
            return MISSING
        d = d[k]
    return d


def empty(v):
    if v is MISSING or v is None:
        return True
    if isinstance(v, (float, np.floating)) and math.isnan(v):
        return True
    return isinstance(v, (dict, list)) and len(v) == 0


VALUES = [0, 1, 0.0, 2.5, False, True, '', 'text', 'None', None, float('nan'), [], [1], [1, 2], ['a', 'b', 'c'], [None, None], {}, {'x': 1}, {'x': None},
          {'a': {'b': {}}}, [{'a': 1}, {'a': 2}], [[], []]]


def paths(ctx):
    from pelicun import base
    rng = ctx.rng
    keys = ['a', 'b', 'DL', 'x y', 'Loss', '1']

    def tree(depth):
        return {str(k): tree(depth - 1) if depth and rng.random() < .6 else copy.deepcopy(VALUES[rng.integers(len(VALUES))])
                for k in rng.permutation(keys)[:rng.integers(1, 4)]}
    d = tree(3)
    model = copy.deepcopy(d)
    for _ in range(int(rng.integers(5, 15))):
        p = []
        cur = d
        for _ in range(int(rng.integers(1, 5))):
            known = list(cur) if isinstance(cur, dict) and cur and rng.random() < .8 else keys
            p.append(pbe.pick(rng, known))
            cur = cur.get(p[-1]) if isinstance(cur, dict) else None
        s = pbe.pick(rng, ['', '', '/']) + '/'.join(p) + pbe.pick(rng, ['', '', '/'])
        w = lookup(model, p)
        ctx.count('paths')
        g = base.get(d, s)
        ctx.check(same(g, None if w is MISSING else w), 'get', lambda: f'get({s}) gives {g!r} expected {w!r}')
        g = base.get(d, s, default='dflt')
        ctx.check(same(g, 'dflt' if w is MISSING else w), 'get-default', lambda: f'get({s}, default) gives {g!r} expected {w!r}')
        if empty(w):
            ctx.count('empties')
        try:
            g = base.is_specified(d, s), base.is_unspecified(d, s)
            ctx.check(g == (not empty(w), empty(w)), 'is-specified', lambda: f'{s}: {w!r} reported as specified, unspecified = {g}')
        except Exception as e:
            ctx.violate('is-specified', f'is_specified fails for the value {w!r}: {e!r}')
        ctx.check(same(d, model), 'read-changes', lambda: f'reading {s} changed the dictionary')
        if rng.random() < .45:
            v = copy.deepcopy(VALUES[rng.integers(len(VALUES))])
            keep = bool(rng.random() < .4)
            ctx.count('updates')
            base.update(d, s, v, only_if_empty_or_none=keep)
            if empty(w) or not keep:
                m = model
                for k in p[:-1]:
                    if not isinstance(m.get(k), dict):
                        m[k] = {}
                    m = m[k]
                m[p[-1]] = copy.deepcopy(v)
            if not ctx.check(same(d, model), 'update', lambda: f'update({s}, {v!r}, only_if_empty_or_none={keep}) {diff(d, model)}'):
                return
            ctx.observe('update', keep, empty(w), type(v).__name__, len(p))
    ctx.check(base.get(None, 'a/b') is None and base.get(None, 'a', default=3) == 3, 'get', 'get from nothing')
