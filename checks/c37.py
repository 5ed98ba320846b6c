"""C37: auto-population returns exactly what the given script produces and leaves no traces."""
import copy
import json
import sys

import numpy as np
import pandas as pd
import pbe
from pelicun.auto import auto_populate

ID = 'C37'
RULE = ('seeded sequences of generated scripts in several folders (equal file and helper-module names, helpers imported at load time or at '
        'run time, packages, scripts changed on disk between calls, scripts that edit what they are given or fail) applied to nested '
        'configurations, interleaved; results against a direct evaluation of the same rules, the caller\'s configuration compared '
        'before and after')
QUICK, THOROUGH = 120, 20000
MIN_OBS = {'calls': 600, 'helpers': 150, 'rewritten': 50, 'failing': 40, 'mutating': 100, 'no_information': 20}

SCRIPT = '''{top}
import pandas as pd
TAG = {tag!r}
LEVEL = {level}
{ctop}
def rules(aim):
{inner}
    return dict(tag=TAG, level=LEVEL{use})

def auto_populate(aim):
    gi = aim['GeneralInformation']
    ap = dict(gi) if {copy} else {{}}
    ap['Tag'] = TAG
    ap['StoryTag'] = f"{{TAG}}.{{gi.get('NumberOfStories', 0) * LEVEL}}"
{body}
    dl = {{'Asset': {{'ComponentDatabase': TAG, 'Rules': rules(aim)}}, 'Damage': {{'DamageProcess': 'None'}},
           'Seen': sorted(aim)}}
    comp = pd.DataFrame({{TAG: ['ea', 1, gi.get('NumberOfStories', 0), LEVEL, 'N/A']}},
                        index=['Units', 'Location', 'Direction', 'Theta_0', 'Family']).T
    return ap, dl, comp
'''


class Script:
    def __init__(self, rng, root, i):
        self.dir = root / f'folder{int(rng.integers(4))}' / 'models'
        self.dir.mkdir(parents=True, exist_ok=True)
        self.name = str(pbe.pick(rng, ['pelicun_config.py', 'auto.py', f'script_{i}.py']))
        self.path = self.dir / self.name
        self.rewrite(rng)

    def rewrite(self, rng):
        self.tag = f'T{rng.integers(1000, 9999)}'
        self.level = int(rng.integers(1, 9))
        self.helper = pbe.pick(rng, [None, 'load', 'run', 'package'])
        self.copy = bool(rng.random() < .5)
        self.mutates = bool(rng.random() < .4)
        self.fails = bool(rng.random() < .12)
        self.hval = None
        top = ctop = use = ''
        inner = '    pass'
        if self.helper:
            # the folder decides the content of its helper module
            f = self.dir / 'rulesets.py' if self.helper != 'package' else self.dir / 'lib' / '__init__.py'
            if not f.exists():
                f.parent.mkdir(exist_ok=True)
                f.write_text(f"VALUE = 'H{rng.integers(1000, 9999)}'\n" + ('' if self.helper != 'package' else 'from lib.inner import DEEP\n'))
                if self.helper == 'package':
                    (f.parent / 'inner.py').write_text(f"DEEP = 'D{rng.integers(1000, 9999)}'\n")
            self.hval = f.read_text().split("'")[1]
            if self.helper == 'package':
                self.hval += (self.dir / 'lib' / 'inner.py').read_text().split("'")[1]
                top, use = 'import lib', ', helper=lib.VALUE + lib.DEEP'
            elif self.helper == 'load':
                top, use = 'from rulesets import VALUE', ', helper=VALUE'
            else:
                inner, use = '    from rulesets import VALUE', ', helper=VALUE'
        body = ''
        if self.mutates:
            body += "    aim.setdefault('Extra', {})['touched'] = TAG\n    gi['Inside'] = [TAG]\n    gi.get('Nested', {}).get('list', []).append(TAG)\n"
        if self.fails:
            body += "    raise RuntimeError('rule ' + TAG)\n"
        self.path.write_text(SCRIPT.format(top=top, ctop=ctop, tag=self.tag, level=self.level, inner=inner, use=use, copy=self.copy, body=body))

    def expected(self, config):
        c = copy.deepcopy(config)
        gi = c['GeneralInformation']
        ap = dict(gi) if self.copy else {}
        ap['Tag'], ap['StoryTag'] = self.tag, f"{self.tag}.{gi.get('NumberOfStories', 0) * self.level}"
        if self.mutates:
            c.setdefault('Extra', {})['touched'] = self.tag
            gi['Inside'] = [self.tag]
            gi.get('Nested', {}).get('list', []).append(self.tag)
        rules = {'tag': self.tag, 'level': self.level, **({'helper': self.hval} if self.helper else {})}
        dl = {'Asset': {'ComponentDatabase': self.tag, 'Rules': rules}, 'Damage': {'DamageProcess': 'None'}, 'Seen': sorted(c)}
        n = gi.get('NumberOfStories', 0)
        gi.update(ap)
        c['DL'] = dl
        return c, [(self.tag, 'ea', 1, n, self.level, 'N/A')]


def config(rng):
    c = {'GeneralInformation': {'NumberOfStories': int(rng.integers(1, 9)), 'PlanArea': float(rng.integers(100, 999))}, 'assetType': 'Buildings'}
    if rng.random() < .5:
        c['GeneralInformation']['Nested'] = {'list': [1, {'a': 2}], 'v': None}
    if rng.random() < .4:
        c['Applications'] = {'DL': {'ApplicationData': {'coupled_EDP': True, 'ground_failure': False}}}
    if rng.random() < .3:
        c['DL'] = {'Asset': {'Old': 1}}
    if rng.random() < .3:
        c['GeneralInformation']['Tag'] = 'old'
    return c


def case(ctx):
    rng = ctx.rng
    root = ctx.tmp()
    # folders outside the working directory and a decoy inside it
    scripts = [Script(rng, root, i) for i in range(int(rng.integers(2, 6)))]
    configs = [config(rng) for _ in range(3)]
    path0 = list(sys.path)
    ctx.describe(scripts=[(str(s.path.relative_to(root)), s.tag, s.helper, s.mutates, s.fails) for s in scripts])
    for _ in range(int(rng.integers(4, 12))):
        # several scripts can share a file: the last one written counts
        i = int(rng.integers(len(scripts)))
        s = scripts[i]
        if rng.random() < .2:
            s.rewrite(rng)
            ctx.count('rewritten')
        cur = [x for x in scripts if x.path == s.path]
        text = s.path.read_text()
        s = next(x for x in cur if f'TAG = {x.tag!r}' in text)
        c = pbe.pick(rng, configs)
        before = copy.deepcopy(c)
        p = pbe.pick(rng, [s.path, str(s.path)])
        ctx.count('calls')
        ctx.count('helpers', s.helper is not None)
        ctx.count('mutating', s.mutates)
        kw = {} if rng.random() < .5 else {'unique_id': int(rng.integers(3))}
        if s.fails:
            ctx.count('failing')
            try:
                auto_populate(c, p, **kw)
                ctx.violate('error-hidden', f'{s.tag}: the script fails but a result was returned')
            except RuntimeError as e:
                ctx.check(s.tag in str(e), 'wrong-error', f'{s.tag}: {e}')
            ctx.check(c == before, 'config-modified', f'failing script {s.tag}')
            continue
        got, comp = auto_populate(c, p, **kw)
        want, rows = s.expected(c)
        ctx.check(c == before, 'config-modified', lambda: f'{c} was {before}')
        ctx.check(got == want, 'config', lambda: f'{s.path}: {json.dumps(got, default=str)} expected {json.dumps(want, default=str)}')
        ctx.check([tuple(r) for r in comp.itertuples()] == rows and list(comp.columns) == ['Units', 'Location', 'Direction', 'Theta_0', 'Family'],
                  'components', lambda: f'{comp} expected {rows}')
        # the result is the caller's own
        got['GeneralInformation'].setdefault('Nested', {}).setdefault('list', []).append('mine')
        got['DL']['Asset'].clear()
        ctx.check(c == before, 'config-shared', 'editing the result changes the input')
        ctx.observe(s.helper, s.mutates, s.copy, s.name[:4], bool(kw), 'Nested' in c['GeneralInformation'])
    if rng.random() < .4:
        ctx.count('no_information')
        c = configs[0]
        del c['GeneralInformation']
        try:
            auto_populate(c, scripts[0].path)
            ctx.violate('no-information', 'accepted without asset information')
        except ValueError as e:
            ctx.check('Asset Information' in str(e), 'no-information', str(e))
    left = [n for n, m in list(sys.modules.items()) if str(getattr(m, '__file__', None) or '').startswith(str(root))]
    ctx.count('modules_kept', len(left))
    for n in left:
        del sys.modules[n]
    sys.path[:] = path0
