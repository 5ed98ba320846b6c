"""C34: version checks report updates truthfully and never break a run.

Sequences of version checks at simulated times against a loopback server whose
releases change and which can fail, with every kind of recorded state; the
answers are compared with an independent reading of the records, the requests
are counted, and imports run in separate processes.
"""
import datetime as dtm
import io
import json
import os
import random
import subprocess
import sys
import types
import warnings
from contextlib import redirect_stderr, redirect_stdout

import dlmlserver as ds

ID = 'C34'
RULE = ('check_dlml_version reports an update exactly when the newest release is '
        'newer than the recorded one, asks at most once a day, and no error '
        'stops the import')
ASSUMPTIONS = [
    'release names are compared by PEP 440; names outside of it count as an '
    'update when they differ; a recorded commit or a missing record always does',
    'the simulated clock never runs backwards',
]
QUICK, THOROUGH = 400, 12000
MIN_OBS = {'checks': 1500, 'requests_made': 300, 'answered_from_cache': 300,
           'update_reported': 100, 'no_update': 100, 'errors': 100,
           'warnings': 60, 'imports': 10, 'damaged_caches': 50,
           'unwritable': 10, 'updates_between': 50}
SERVER = {}


def server():
    from pelicun.tools import dlml  # noqa: F401

    if SERVER.get('pid') != os.getpid():
        SERVER.update(pid=os.getpid(), server=ds.Server())
    return SERVER['server']


class Clock(dtm.datetime):
    """datetime with a settable now()"""

    current = dtm.datetime(2026, 1, 1, 12, 0, 0)

    @classmethod
    def now(cls, tz=None):
        t = cls.current
        return cls(t.year, t.month, t.day, t.hour, t.minute, t.second,
                   t.microsecond, tz)


# name, rank by PEP 440 (None: not a version)
NAMES = [
    ('v0.9', 0), ('v0.10', 1), ('0.10.1', 2), ('v1.0.0rc1', 3), ('v1.0.0', 4),
    ('1.0', 4), ('v1.0.0.post1', 5), ('v1.2.0', 6), ('v1.10.0', 7), ('v2.0', 8),
    ('v10.0.0', 9), ('beta', None), ('release-3', None), ('2026_05', None),
    ('vv', None),
]
RANK = dict(NAMES)


def newer(current, latest):
    """Independent reading of the rule."""
    if not isinstance(current, str) or not current or current.startswith('commit-'):
        return True
    if RANK[current] is None or RANK[latest] is None:
        return current != latest
    return RANK[latest] > RANK[current]


DAMAGED = [
    b'', b'{', b'[]', b'null', b'3', b'"text"', b'\xff\xfe\x00', b'[1, 2]',
    b'{"version": 3}', b'{"version": ["v1"]}', b'{"last_version_check": 12}',
    b'{"last_version_check": "yesterday", "version": null}',
    b'{"last_version_check": "2026-01-01T00:00:00+00:00", "version": "v1.0.0"}',
    b'{"version": {"a": 1}, "files": {}}',
]
FAULTS = ['500', '404', '403', 'drop', 'truncate', 'garbage', 'empty_object',
          'list', 'null']


def quiet(fn):
    out = io.StringIO()
    with warnings.catch_warnings(record=True) as caught, redirect_stderr(out), \
            redirect_stdout(out):
        warnings.simplefilter('always')
        return fn(), caught


def case(ctx):
    rng = random.Random(int(ctx.rng.integers(2**31)))
    srv = server()
    from pelicun.tools import dlml

    if ctx.index % 20 == 0:
        return imports(ctx, rng, srv)
    folder = ctx.tmp()
    (folder / ds.MANIFEST).write_bytes(b'')
    cache = folder / ds.CACHE
    repo = ds.Repo(rng)
    srv.repo = repo
    srv.use(folder)
    Clock.current = dtm.datetime(2026, rng.randint(1, 12), rng.randint(1, 28),
                                 rng.randint(0, 23), rng.randint(0, 59))
    commits = [repo.root]

    def publish():
        name = rng.choice(NAMES)[0]
        if name not in repo.tags:
            commits.append(repo.evolve(commits[-1]))
            repo.release(name, commits[-1])
            return True
        return False

    while not publish():
        pass
    r = rng.random()
    current = None
    damaged = False
    record = {}
    if r < 0.45:
        current = rng.choice(NAMES)[0]
        record = {'version': current, 'download_type': 'version',
                  'commit_sha': repo.root, 'files': {}}
    elif r < 0.6:
        current = f'commit-{repo.root[:7]}'
        record = {'version': current, 'download_type': 'commit',
                  'commit_sha': repo.root, 'files': {}}
    elif r < 0.7:
        record = None
    elif r < 0.85:
        damaged = True
        ctx.count('damaged_caches')
    if damaged:
        cache.write_bytes(rng.choice(DAMAGED))
        ctx.describe(cache=repr(cache.read_bytes()))
    elif record is not None:
        cache.write_text(json.dumps(record))
        ctx.describe(cache=record)
    unwritable = not damaged and rng.random() < 0.08
    if unwritable:
        if cache.exists():
            cache.unlink()
        current = None
        cache.mkdir()
        ctx.count('unwritable')
    real = {}
    for name, value in list(vars(dlml).items()):
        if value is dtm.datetime:
            real[name] = value
            setattr(dlml, name, Clock)
        elif value is dtm:
            real[name] = value
            setattr(dlml, name, types.SimpleNamespace(
                **{**vars(dtm), 'datetime': Clock}))
    last = None  # (time, result) of the last real check
    optional = False
    trail = []
    try:
        for _ in range(rng.randint(3, 9)):
            Clock.current += dtm.timedelta(
                seconds=rng.choice([0, 5, 3600, 12 * 3600, 86000, 86399, 86400,
                                    86401, 3 * 86400]))
            if rng.random() < 0.3:
                publish()
            if rng.random() < 0.12 and not unwritable:
                # a real update in between
                srv.reset()
                rel = rng.choice(repo.releases)['tag_name']
                use_cache = rng.random() < 0.7
                try:
                    quiet(lambda: dlml.dlml_update(version=rel, use_cache=use_cache))
                except RuntimeError as e:
                    ctx.violate('update_failed', f'{rel} {e}; {trail}')
                    return
                ctx.count('updates_between')
                trail.append(['update', rel])
                if rel == current and last is not None:
                    optional = True  # nothing new: the answer may be kept
                else:
                    last = None
                current, damaged = rel, False
            fault = rng.choice(FAULTS) if rng.random() < 0.3 else None
            latest = repo.releases[-1]['tag_name']
            srv.reset({0: fault} if fault else None)
            trail.append([str(Clock.current), fault, latest])
            ctx.describe(trail=trail)
            ctx.count('checks')
            through_import = rng.random() < 0.4
            caught = []
            try:
                if through_import:
                    _, caught = quiet(dlml.check_dlml_data)
                    info = None
                else:
                    info, _ = quiet(dlml.check_dlml_version)
            except Exception as e:  # noqa: BLE001
                if not through_import and isinstance(e, OSError) and unwritable:
                    info = None  # only the import has to be safe
                else:
                    ctx.violate('check_raised', f'{e!r} {trail}')
                    return
            asked = len(srv.log)
            due = (last is None or
                   Clock.current - last[0] >= dtm.timedelta(days=1))
            if optional and asked:
                due = True
            optional = False
            if damaged:
                # the record is replaced by a readable one
                damaged = False
                try:
                    current = json.loads(DAMAGED_OF(ctx)).get('version')
                except (ValueError, AttributeError):
                    current = None
                due = asked > 0
                if not due and (current is None or isinstance(current, str)):
                    ctx.violate('damaged_cache_trusted', f'{trail}')
                    return
            if current is not None and not isinstance(current, str):
                # nothing can be told about such a record, but nothing raises
                ctx.count('odd_records')
                last = None
                continue
            if unwritable:
                last = None
                if through_import:
                    ctx.count('unwritable_imports')
                continue
            if due:
                ctx.check(asked == 1, 'requests', f'{asked} requests; {trail}')
                ctx.count('requests_made', asked)
                if fault is None:
                    expect, err = newer(current, latest), False
                else:
                    # an answer without a release name is no update
                    expect, err = False, fault not in {'empty_object'}
                last = (Clock.current, (expect, err))
            else:
                ctx.check(asked == 0, 'asked_again',
                          f'{asked} requests within a day; {trail}')
                ctx.count('answered_from_cache')
                expect, err = last[1]
            ctx.observe((expect, err, due, fault, through_import,
                         str(current)[:7], latest))
            if err:
                ctx.count('errors')
            if info is not None:
                ctx.check(info.get('update_available') is expect
                          or bool(info.get('update_available')) == expect,
                          'wrong_answer',
                          f'{info} expected {expect}: recorded {current}, latest '
                          f'{latest}; {trail}')
                ctx.check(bool(info.get('error')) == err, 'error_not_reported',
                          f'{info} {trail}')
                if not err and due:
                    ctx.check(fault is not None
                              or info.get('latest_version') == latest,
                              'latest_version', f'{info} {latest}')
                ctx.check(info.get('current_version') == current,
                          'current_version', f'{info} {current}')
            if through_import:
                told = [w for w in caught if 'update available' in str(w.message)]
                ctx.check(len(told) == (1 if expect and not err else 0),
                          'import_warning', f'{len(told)} warnings, expected '
                          f'{expect and not err}; {trail}')
                ctx.count('warnings', len(told))
                if told and due:
                    text = str(told[0].message)
                    ctx.check(str(latest) in text and
                              (not current or current in text),
                              'import_warning_text', text)
            ctx.count('update_reported' if expect else 'no_update')
            # the record of the installed version is kept
            data = json.loads(cache.read_text())
            ctx.check(data.get('version') == current, 'record_lost',
                      f'{data.get("version")} {current}')
            if ctx.violations:
                return
    finally:
        for name, value in real.items():
            setattr(dlml, name, value)


def DAMAGED_OF(ctx):
    return eval(ctx.desc['cache'])  # noqa: S307


CODE = """
import sys, warnings
sys.path.insert(0, {repo!r})
import pelicun
from pelicun import assessment
a = assessment.Assessment({{'PrintLog': False, 'LogFile': None}})
print('IMPORTED', a is not None)
"""


def imports(ctx, rng, srv):
    """A new process imports pelicun while something is wrong."""
    folder = ctx.tmp()
    (folder / ds.MANIFEST).write_bytes(b'')
    cache = folder / ds.CACHE
    repo = ds.Repo(rng)
    repo.release('v1.0.0', repo.root)
    srv.repo = repo
    kind = ['damaged', 'fault', 'unwritable', 'both'][(ctx.index // 20) % 4]
    if kind in {'damaged', 'both'}:
        cache.write_bytes(rng.choice(DAMAGED))
    elif kind == 'unwritable':
        cache.mkdir()
    else:
        cache.write_text('{"version": "v0.1", "commit_sha": "abc", "files": {}}')
    fault = rng.choice(FAULTS) if kind in {'fault', 'both'} else None
    srv.reset({0: fault} if fault else None)
    env = {**os.environ, **srv.env(folder)}
    from runner import REPO

    ctx.describe(kind=kind, fault=fault)
    run = subprocess.run([sys.executable, '-c', CODE.format(repo=str(REPO))],
                         env=env, cwd=ctx.tmp(), capture_output=True, text=True,
                         timeout=300)
    ctx.count('imports')
    ctx.check('IMPORTED True' in run.stdout, 'import_stopped',
              f'{kind} {fault}: {run.stderr[-600:]}')
    if kind != 'unwritable':  # its answer cannot be kept
        ctx.check(len(srv.log) == 1 or (kind in {'damaged', 'both'} and not srv.log), 'requests', f'{len(srv.log)} {kind} {fault}')
    ctx.observe(('import', kind, fault))
