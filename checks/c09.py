"""C09: references to the default model library name the files the documentation says they do."""
import json
import sys
from pathlib import Path

import numpy as np
import pandas as pd

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / 'lib'))
import library  # noqa: E402
import pbe  # noqa: E402

ID = 'C09'
RULE = ('seeded model libraries in scratch folders (several methods, each with damage, consequence and loss function tables and metadata of '
        'its own) used through lists that mix tables, user files (also with library-like names and folders) and default references, by '
        'method and by every documented legacy file name; resolved paths, loaded tables, metadata and the parameters that a damage and a '
        'loss model end up with compared with the files as written')
QUICK, THOROUGH = 160, 4000
MIN_OBS = {'lists': 150, 'legacy': 150, 'by_method': 300, 'user_files': 100, 'unknown': 100, 'damage_models': 140, 'loss_models': 140,
           'metadata': 140, 'precedence': 30}
ASSUMPTIONS = ['the shipped list of methods (dlml_resource_paths.json) is the documented one']

EQ = 'Hazus Earthquake - '
LEGACY = {
    'FEMA_P58_2nd': 'FEMA P-58', 'Hazus_EQ_bldg': EQ + 'Buildings', 'Hazus_EQ_story': EQ + 'Stories', 'Hazus_EQ_trnsp': EQ + 'Transportation',
    'Hazus_EQ_water': EQ + 'Potable Water', 'Hazus_EQ_power': EQ + 'Electric Power', 'SimCenter_Hazus_HU_bldg': 'Hazus Hurricane Wind'}
# what the renamed file names of the earlier versions stand for
LEGACY_NAMES = {f'{p}_{k}': (m, 'fragility') for k, m in LEGACY.items() for p in ('damage_DB', 'fragility_DB')}
LEGACY_NAMES.update({f'{p}_{k}': (m, 'consequence_repair') for k, m in LEGACY.items() for p in ('loss_repair_DB', 'bldg_repair_DB')
                     if not k.endswith(('water', 'power'))})


def fragility(rng, ids):
    return pd.DataFrame({'Incomplete': 0, 'Demand-Type': 'Peak Ground Acceleration', 'Demand-Unit': 'g', 'Demand-Offset': 0, 'Demand-Directional': 1,
                         'LS1-Family': 'lognormal', 'LS1-Theta_0': [pbe.sig(x) for x in rng.uniform(.1, 2, len(ids))], 'LS1-Theta_1': .4},
                        index=pd.Index(ids, name='ID'))


def consequence(rng, ids):
    return pd.DataFrame({'Incomplete': 0, 'Quantity-Unit': '1 EA', 'DV-Unit': 'USD_2011', 'DS1-Theta_0': [pbe.sig(x) for x in rng.uniform(1, 1000, len(ids))]},
                        index=pd.Index([f'{i}-Cost' for i in ids], name='ID'))


def functions(rng, ids):
    return pd.DataFrame({'DV-Unit': 'loss_ratio', 'Demand-Type': 'Peak Ground Acceleration', 'Demand-Unit': 'g', 'Demand-Offset': 0, 'Demand-Directional': 1,
                         'LossFunction-Theta_0': [f'0.0,{pbe.sig(x)}|0.0,1000000.0' for x in rng.uniform(.1, 1, len(ids))]},
                        index=pd.Index([f'{i}-Cost' for i in ids], name='-'))


def read(f):
    """The file as text cells."""
    import csv
    with Path(f).open(newline='', encoding='utf-8') as h:
        return [r for r in csv.reader(h) if r]


def text(x):
    try:
        return repr(float(x))
    except (TypeError, ValueError):
        return str(x)


def cells(rows):
    return {r[0]: {h: text(v) for h, v in zip(rows[0][1:], r[1:]) if v != ''} for r in rows[1:]}


def table(df):
    """A loaded table in the same form."""
    out = {}
    for i in range(len(df)):
        lab = df.index[i]
        lab = '-'.join(map(str, lab)) if isinstance(lab, tuple) else str(lab)
        out[lab] = {'-'.join(str(x) for x in c if str(x)) if isinstance(c, tuple) else c: text(v)
                    for c, v in zip(df.columns, df.iloc[i]) if not (isinstance(v, float) and np.isnan(v))}
    return out


def case(ctx):  # noqa: C901
    from pelicun import file_io
    from pelicun.assessment import Assessment
    rng = ctx.rng
    with ctx.tmp() as tmp:
        tmp = Path(tmp)
        lib = library.use(tmp)
        folders = library.paths()
        ids = [f'{pbe.pick(rng, "BCDE")}.{i}{rng.integers(10, 99)}' for i in range(6)]
        known = {}
        # methods may share a folder: they share the files as well
        by_folder = {}
        for k, v in folders.items():
            by_folder.setdefault(v.rstrip('/'), []).append(k)
        some = list(by_folder.values())
        some = [g for g in some if rng.random() < .75] or some[:1]
        if [m for g in some for m in g] and not any(m in LEGACY.values() for g in some for m in g):
            some = list(by_folder.values())
        for g in some:
            own = sorted(map(str, rng.choice(ids, int(rng.integers(1, 7)), replace=False)))
            for typ, fn in (('fragility', fragility), ('consequence_repair', consequence), ('loss_repair', functions)):
                f = library.add(lib, g[0], f'{typ}.csv', fn(rng, own))
                j = {'_GeneralInformation': {'x': int(rng.integers(1e9))}, own[0]: {'Description': f'{g[0]} {typ} é'}}
                library.add(lib, g[0], f'{typ}.json', json.dumps(j))
                for m in g:
                    known[m, typ] = (f, j)
        methods = sorted({m for m, _ in known})
        ctx.describe(methods=methods, ids=ids)
        a = Assessment({'Seed': 1})

        def ref(typ):
            """A random source of one kind and the file behind it."""
            r = rng.random()
            leg = [n for n, (m, t) in LEGACY_NAMES.items() if m in methods and t == typ]
            if r < .35 and leg:
                n = pbe.pick(rng, leg)
                ctx.count('legacy')
                return f'PelicunDefault/{n}.csv', known[LEGACY_NAMES[n][0], typ][0]
            if r < .7:
                m = pbe.pick(rng, methods)
                ctx.count('by_method')
                return f'PelicunDefault/{m}/{typ}.csv', known[m, typ][0]
            d = tmp / pbe.pick(rng, ['user', 'my bldg_repair_DB', 'damage_DB', 'Pelicun Default', 'PelicunDefaults'])
            d.mkdir(exist_ok=True)
            f = d / f'{pbe.pick(rng, ["mine", "damage_DB_mine", "bldg_repair_DB_mine", "fragility", "loss_repair_DB_FEMA_P58_2nd"])}{rng.integers(1e9)}.csv'
            fn = {'fragility': fragility, 'consequence_repair': consequence, 'loss_repair': functions}[typ]
            df = fn(rng, sorted(map(str, rng.choice(ids, int(rng.integers(1, 4)), replace=False))))
            df.to_csv(f)
            ctx.count('user_files')
            return (str(f) if r < .9 else pd.read_csv(f, index_col=0)), f

        # resolution: order, tables and other paths untouched
        refs = [ref(pbe.pick(rng, ['fragility', 'consequence_repair', 'loss_repair'])) for _ in range(int(rng.integers(1, 7)))]
        given = [r for r, _ in refs]
        got = file_io.substitute_default_path(list(given), a.log if rng.random() < .5 else None)
        ctx.count('lists')
        if ctx.check(len(got) == len(given), 'length', f'{len(got)} for {len(given)}'):
            for (r, f), g in zip(refs, got):
                if isinstance(r, pd.DataFrame):
                    ctx.check(g is r, 'table-replaced', 'another object')
                elif 'PelicunDefault/' in r:
                    ctx.check(isinstance(g, str) and Path(g).resolve() == f.resolve(), 'resolved', lambda: f'{r} -> {g}, expected {f}')
                else:
                    ctx.check(g == r, 'user-path-changed', lambda: f'{r} -> {g}')

        # data and metadata by name
        for m, t in [(pbe.pick(rng, methods), pbe.pick(rng, ['fragility', 'consequence_repair', 'loss_repair']))]:
            args = [(m, t)] + [(n, None) for n, x in LEGACY_NAMES.items() if x == (m, t)]
            for x in args:
                x = x if x[1] or rng.random() < .5 else x[:1]
                ctx.check(table(a.get_default_data(*x)) == cells(read(known[m, t][0])), 'data', lambda: f'{x}')
                ctx.check(a.get_default_metadata(*x) == known[m, t][1], 'metadata', lambda: f'{x}')
                ctx.count('metadata')
        # unknown names
        for bad in ('PelicunDefault/No such method/fragility.csv', 'PelicunDefault/something.csv', 'PelicunDefault/damage_DB_nothing.csv',
                    'PelicunDefault/fema p-58/fragility.csv'):
            try:
                got = file_io.substitute_default_path([bad])
            except KeyError:
                got = None
            ctx.count('unknown')
            ctx.check(got is None, 'unknown-accepted', lambda: f'{bad} -> {got}')

        # what models make of them: the first source with an entry wins
        refs = [ref('fragility') for _ in range(int(rng.integers(1, 4)))]
        truth = {}
        for _, f in reversed(refs):
            truth.update(cells(read(f)))
        want = sorted(map(str, rng.choice(sorted(truth), min(len(truth), 3), replace=False)))
        dem = pd.DataFrame({'PGA-0-1': ['g', 0.5, 0.6]}, index=['Units', '0', '1'])
        a.stories = 1
        a.demand.load_sample(dem)
        a.asset.load_cmp_model({'marginals': pd.DataFrame({'Units': 'ea', 'Location': '0', 'Direction': '1', 'Theta_0': 1.}, index=want)})
        a.asset.generate_cmp_sample(2)
        a.damage.load_model_parameters([r for r, _ in refs], set(want))
        par = a.damage.ds_model.damage_params
        ctx.count('damage_models')
        for i in want:
            n = sum(i in cells(read(f)) for _, f in refs)
            ctx.count('precedence', n > 1)
            if ctx.check(i in par.index, 'damage-parameters', f'{i} missing'):
                ctx.close(np.array([float(par.loc[i, ('LS1', 'Theta_0')])]), np.array([float(truth[i]['LS1-Theta_0']) * pbe.U['g']]), 'damage-parameters',
                          rel=1e-9)
        a.damage.calculate()
        typ = pbe.pick(rng, ['consequence_repair', 'loss_repair'])
        refs = [ref(typ) for _ in range(int(rng.integers(1, 4)))]
        truth = {}
        for _, f in reversed(refs):
            truth.update(cells(read(f)))
        use = [i for i in want if f'{i}-Cost' in truth]
        if not use:
            ctx.count('loss_models')
            return
        a.loss.decision_variables = ('Cost',)
        a.loss.add_loss_map(pd.DataFrame({'Repair': use}, index=use))
        a.loss.load_model_parameters([r for r, _ in refs])
        mod = a.loss.ds_model if typ == 'consequence_repair' else a.loss.lf_model
        col = ('DS1', 'Theta_0') if typ == 'consequence_repair' else ('LossFunction', 'Theta_0')
        ctx.count('loss_models')
        for i in use:
            ctx.count('precedence', sum(f'{i}-Cost' in cells(read(f)) for _, f in refs) > 1)
            if not ctx.check((i, 'Cost') in mod.loss_params.index, 'loss-parameters', lambda: f'{i} not in {list(mod.loss_params.index)}'):
                continue
            g, w = mod.loss_params.loc[(i, 'Cost'), col], truth[f'{i}-Cost']['-'.join(col)]
            if typ == 'consequence_repair':
                ctx.close(np.array([float(g)]), np.array([float(w)]), 'loss-parameters', rel=1e-9)
            else:
                ctx.check(np.allclose([float(x) for x in str(g).split('|')[0].split(',')], [float(x) for x in str(w).split('|')[0].split(',')], rtol=1e-9),
                          'loss-parameters', lambda: f'{g} vs {w}')
        ctx.observe(len(methods), len(refs), typ, len(use), tuple(isinstance(r, str) and 'PelicunDefault/' in r for r, _ in refs))
