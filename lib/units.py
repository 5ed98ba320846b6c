"""Unit files with other base units."""
import json

import pbe

CATS = {'time': ['sec', 'minute', 'hour', 'day'], 'length': ['m', 'mm', 'cm', 'km', 'in', 'inch', 'ft', 'mile'],
        'area': ['m2', 'mm2', 'cm2', 'km2', 'in2', 'inch2', 'ft2', 'mile2'], 'volume': ['m3', 'in3', 'inch3', 'ft3'],
        'velocity': ['cmps', 'mps', 'mph', 'inps', 'inchps', 'ftps'], 'acceleration': ['mps2', 'inps2', 'inchps2', 'ftps2', 'g'],
        'mass': ['kg', 'ton', 'lb'], 'force': ['N', 'kN', 'lbf', 'kip', 'kips'], 'line_force': ['Npm', 'kNpm', 'lbpft', 'kippft', 'kipspft'],
        'pressure': ['Pa', 'kPa', 'MPa', 'GPa', 'psi', 'ksi', 'Mpsi']}
EXP = {'length': (1, 0), 'area': (2, 0), 'volume': (3, 0), 'velocity': (1, 0), 'acceleration': (1, 0), 'mass': (0, 1)}


def base_units(ctx):
    """A unit file with other base units of length and mass: (path, factors)."""
    rng = ctx.rng
    la, ma = pbe.pick(rng, [.0254, .3048, 1e-3, 3.]), pbe.pick(rng, [1., 1000., .453592])
    tab = {}
    for c, us in {**CATS, 'misc': [u for u in pbe.U if not any(u in s for s in CATS.values())]}.items():
        e = EXP.get(c, (0, 0))
        for u in us:
            x = {'SF': (2, 0), 'LF': (1, 0), 'CF': (3, 0), 'TN': (0, 1)}.get(u, e)
            tab[u] = pbe.U[u] / (la ** x[0] * ma ** x[1])
    p = ctx.tmp() / 'units.json'
    p.write_text(json.dumps({'all': tab}))
    return str(p), tab
