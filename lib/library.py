"""A synthetic model library in a scratch package folder (nothing is written to /repo)."""
import json
import os
import shutil
import sys
from pathlib import Path

METHODS = {'Hazus Earthquake - Buildings': 'seismic/building/portfolio/Hazus v6.1',
           'Hazus Hurricane Wind - Buildings': 'hurricane/building/portfolio/Hazus v5.1 coupled',
           'Hazus Hurricane Storm Surge - Buildings': 'flood/building/portfolio/Hazus v6.1',
           'FEMA P-58': 'seismic/building/component/FEMA P-58 2nd Edition',
           'SimCenter Wind Component Library': 'hurricane/building/component/SimCenter Wind Component Library'}


def package():
    import pelicun
    return Path(pelicun.__file__).resolve().parent


def paths():
    """The methods of the library and their folders, as shipped."""
    return json.loads((package() / 'resources' / 'dlml_resource_paths.json').read_text())


def use(folder):
    """In this process, library files come from a folder of links to the package; returns the library folder."""
    from pelicun import base
    pkg = package()
    p = Path(folder) / 'pelicun'
    (p / 'resources').mkdir(parents=True)
    for x in pkg.iterdir():
        if x.name not in ('resources', 'tests', '__pycache__'):
            (p / x.name).symlink_to(x)
    for x in (pkg / 'resources').iterdir():
        if x.name != 'DamageAndLossModelLibrary':
            (p / 'resources' / x.name).symlink_to(x)
    lib = p / 'resources' / 'DamageAndLossModelLibrary'
    lib.mkdir()
    base.pelicun_path = p
    return lib


def copy(folder):
    """A copy of the package for new processes; returns (library folder, environment)."""
    pkg = package()
    dst = Path(folder) / 'site'
    shutil.copytree(pkg, dst / 'pelicun', ignore=shutil.ignore_patterns('tests', '__pycache__', 'DamageAndLossModelLibrary'))
    lib = dst / 'pelicun' / 'resources' / 'DamageAndLossModelLibrary'
    lib.mkdir(parents=True)
    env = dict(os.environ, PYTHONPATH=str(dst), PYTHONWARNINGS='ignore')
    return lib, env


def add(lib, method, name, content):
    """Write a library file (text or DataFrame)."""
    f = Path(lib) / paths()[method] / name
    f.parent.mkdir(parents=True, exist_ok=True)
    if isinstance(content, str):
        f.write_text(content)
    else:
        content.to_csv(f)
    return f
