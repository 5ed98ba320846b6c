"""C32: a successful model-library download is a complete copy of one version.

Histories of installs, updates, downgrades, tampering and imports run against
a loopback server holding a generated commit graph; after every successful
operation the data folder is compared with the served tree byte by byte.
"""
import io
import json
import os
import random
import shutil
import subprocess
import sys
import warnings
from contextlib import redirect_stderr, redirect_stdout

import dlmlserver as ds

ID = 'C32'
RULE = ('dlml updates leave exactly the files of the requested version, record '
        'that version, skip unchanged files and touch nothing else')
ASSUMPTIONS = [
    'the server is a loopback model of the GitHub API (releases, tags, commits, '
    'compare with merge-base semantics and the 300-file cap, raw files)',
    'a locally modified file is not required to be repaired when the requested '
    'commit is the recorded one and the cache is used (required by an existing test)',
    'a file removed upstream is only required to disappear when it is unmodified '
    'and still recorded in the cache',
]
QUICK, THOROUGH = 160, 4000
MIN_OBS = {'operations': 400, 'succeeded': 300, 'files_compared': 2000,
           'skipped_files': 100, 'stale_checked': 30, 'downgrades': 10,
           'diverged': 3, 'no_cache': 20, 'rejected': 5, 'cli': 2,
           'over_300': 1, 'hostile_lists': 5}

SERVER = {}


def server():
    from pelicun.tools import dlml  # noqa: F401

    if SERVER.get('pid') != os.getpid():
        SERVER.update(pid=os.getpid(), server=ds.Server())
    return SERVER['server']


class Model:
    """What the data folder has to contain, kept beside the real code."""

    def __init__(self, ctx, rng, srv, repo, base):
        self.ctx, self.rng, self.srv, self.repo = ctx, rng, srv, repo
        self.base = base
        self.dir = base / 'lib rary'
        self.foreign = {}
        self.recorded = {}  # path -> bytes, as recorded by pelicun
        self.commit = None  # recorded commit
        self.tampered = set()
        self.history = []

    # ---- operations
    def target(self):
        """Draw an operation: (kind, kwargs, cli target, commit, version)."""
        rng, repo = self.rng, self.repo
        r = rng.random()
        if r < 0.45:
            rel = rng.choice(repo.releases)['tag_name']
            return {'version': rel}, rel, repo.tags[rel]['commit'], rel
        if r < 0.65:
            rel = repo.releases[-1]['tag_name']
            kw = rng.choice([{'version': 'latest'}, {}])
            return kw, 'latest', repo.tags[rel]['commit'], rel
        if r < 0.75:
            head = repo.branches['main']
            return {'commit': 'latest'}, 'commit latest', head, f'commit-{head[:7]}'
        c = rng.choice(repo.order)
        short = c[:7]
        return {'commit': short}, f'commit {short}', c, f'commit-{short}'

    def bad(self):
        rng = self.rng
        return rng.choice([
            {'version': 'v99.0'}, {'commit': 'fffffff'}, {'commit': 'zzzzzzz'},
            {'commit': 'abc'}, {'version': '1.0.0 '}, {'commit': ''},
        ])

    def call(self, kwargs, cli, use_cache):
        """Run the update the way a user would; True when it succeeded."""
        from pelicun.tools import dlml

        if cli is not None:
            args = [sys.executable, '-m', 'pelicun.cli', 'dlml', 'update']
            if not (cli == 'latest' and self.rng.random() < 0.5):
                args.append(cli)
            if not use_cache:
                args.append('--no-cache')
            env = dict(os.environ)
            env.update(self.srv.env(self.dir))
            run = subprocess.run(args, env=env, cwd=self.base / 'cwd',
                                 capture_output=True, text=True, timeout=300)
            self.ctx.count('cli')
            self.output = run.stdout[-1500:] + run.stderr[-1500:]
            return run.returncode == 0
        out = io.StringIO()
        try:
            with redirect_stderr(out), redirect_stdout(out):
                dlml.dlml_update(**kwargs, use_cache=use_cache)
        except RuntimeError as e:
            self.output = repr(e)
            return False
        self.output = ''
        return True

    # ---- observations
    def outside(self):
        return {p: b for p, b in ds.files_in(self.base).items()
                if not p.startswith('lib rary/')}

    def tamper(self):
        rng, ctx = self.rng, self.ctx
        if not self.dir.exists():
            return
        r = rng.random()
        own = [p for p in self.recorded if (self.dir / p).exists()]
        if r < 0.3 and own:
            p = rng.choice(own)
            (self.dir / p).unlink()
            self.history.append(['delete', p])
        elif r < 0.6 and own:
            p = rng.choice(own)
            with (self.dir / p).open('ab') as f:
                f.write(b'# local edit\n')
            self.tampered.add(p)
            self.history.append(['edit', p])
        elif r < 0.7:
            (self.dir / ds.CACHE).unlink(missing_ok=True)
            self.lost()
            self.history.append(['cache deleted'])
        elif r < 0.8:
            (self.dir / ds.CACHE).write_bytes(
                rng.choice([b'', b'{"commit_sha": ', b'[]', b'null', b'\xff\xfe',
                            b'"x"']))
            self.lost()
            self.history.append(['cache damaged'])
        elif r < 0.85:
            (self.dir / ds.MANIFEST).unlink(missing_ok=True)
            self.history.append(['manifest deleted'])
        else:
            p = rng.choice(['notes.txt', 'seismic/my.csv', 'mine/x.csv',
                            'seismic/building/own file.csv'])
            self.foreign[p] = b'mine %d' % rng.randrange(10**6)
            (self.dir / p).parent.mkdir(parents=True, exist_ok=True)
            (self.dir / p).write_bytes(self.foreign[p])
            self.history.append(['foreign', p])
        ctx.count('tampering')

    def lost(self):
        # files of an unrecorded version may stay as they are
        for p in list(self.recorded):
            f = self.dir / p
            if f.exists():
                self.foreign.setdefault(p, None)
        self.recorded, self.commit = {}, None

    def after_success(self, commit, version, kind, use_cache, before, cli):
        ctx, repo = self.ctx, self.repo
        want = repo.listed(commit)
        have = ds.files_in(self.dir)
        same = use_cache and self.commit == commit
        for p, body in want.items():
            ctx.count('files_compared')
            if p not in have:
                ctx.violate('missing_file', f'{p} not present after success '
                            f'({self.history})')
            elif have[p] != body:
                if same and p in self.tampered:
                    ctx.count('unrepaired')
                    continue
                ctx.violate('wrong_content', f'{p} differs from {version} '
                            f'({self.history})')
        # removed upstream
        for p, body in self.recorded.items():
            if p in want or p in self.foreign or p == ds.MANIFEST:
                continue
            ctx.count('stale_checked')
            if p in self.tampered:
                if p in before and have.get(p) not in (None, before[p]):
                    ctx.violate('local_edit_changed', p)
                elif p in have:
                    self.foreign[p] = have[p]
            elif p in have:
                ctx.violate('stale_file', f'{p} is not part of {version} '
                            f'({self.history})')
        for p, body in self.foreign.items():
            if p in want:
                continue
            if body is not None and have.get(p) != body:
                ctx.violate('foreign_file', f'{p} changed or removed')
            ctx.count('foreign_checked')
        known = set(want) | set(self.foreign) | {ds.CACHE}
        extra = set(have) - known
        ctx.check(not extra, 'unexpected_file', f'{sorted(extra)[:4]} {self.history}')
        # requests are judged below; a first install without cache keeps no record
        if not use_cache and ds.CACHE not in before and ds.CACHE not in have:
            ctx.check(ds.MANIFEST not in before, 'record_missing',
                      f'{version} {self.history}')
            ctx.count('unrecorded')
            self.recorded = {p: b for p, b in want.items() if p != ds.MANIFEST}
            self.lost()
            self.tampered = set()
            return
        # record
        try:
            cache = json.loads(have[ds.CACHE])
        except (KeyError, ValueError):
            ctx.violate('record_missing', f'{version} {self.history}')
            cache = {}
        ctx.check(cache.get('version') == version, 'recorded_version',
                  f'{cache.get("version")} instead of {version} {self.history}')
        ctx.check(cache.get('download_type') == kind, 'recorded_type',
                  f'{cache.get("download_type")} instead of {kind}')
        rec = cache.get('commit_sha')
        ctx.check(isinstance(rec, str) and repo.resolve(rec) == commit,
                  'recorded_commit', f'{rec} instead of {commit} {self.history}')
        hashes = cache.get('files') or {}
        for p, body in want.items():
            if p != ds.MANIFEST and not (same and p in self.tampered):
                ctx.check(hashes.get(p) == ds.digest(body), 'recorded_hash', p)
        # requests
        got = [ds_path.split('/', 5)[5] for k, ds_path, st, _ in self.srv.log
               if k in {'file', 'manifest'}]
        if use_cache and self.commit is not None:
            cmp = repo.compare(self.commit, commit)
            back = repo.compare(commit, self.commit)
            ctx.count({'ahead': 'upgrades', 'behind': 'downgrades',
                       'diverged': 'diverged',
                       'identical': 'identical'}[cmp['status']])
            files = cmp['files'] if cmp['status'] != 'behind' else back['files']
            if len(files) >= 300:
                ctx.count('over_300')
            elif cmp['status'] != 'diverged':
                old = repo.commits[self.commit]['tree']
                for p, body in want.items():
                    if (p != ds.MANIFEST and self.recorded.get(p) == body
                            and old.get(p) == body and before.get(p) == body):
                        ctx.count('skipped_files')
                        ctx.check(p not in got, 'needless_download',
                                  f'{p} {self.history}')
        self.recorded = {p: b for p, b in want.items() if p != ds.MANIFEST}
        self.tampered = {p for p in self.tampered if p in want
                         and have.get(p) != want[p]}
        self.foreign = {p: b for p, b in self.foreign.items() if p not in want}
        self.commit = commit
        ctx.observe((kind, use_cache, cli, same, len(got) > 1,
                     bool(self.tampered)))


def case(ctx):
    rng = random.Random(int(ctx.rng.integers(2**31)))
    srv = server()
    many = ctx.index % 20 == 7
    repo = ds.library(rng, many)
    srv.repo = repo
    base = ctx.tmp()
    (base / 'cwd').mkdir()
    (base / 'outside.txt').write_bytes(b'sentinel')
    m = Model(ctx, rng, srv, repo, base)
    srv.use(m.dir)
    cli_case = ctx.index % 16 == 3
    outside = m.outside()
    try:
        for step in range(rng.randint(3, 7) if not many else 3):
            for _ in range(rng.choice([0, 0, 1, 2])):
                m.tamper()
            before = ds.files_in(m.dir) if m.dir.exists() else {}
            ctx.count('operations')
            srv.reset()
            r = rng.random()
            if r < 0.08:
                kw = m.bad()
                m.history.append(['bad', kw])
                ctx.describe(history=m.history)
                done = m.call(kw, None, rng.random() < 0.7)
                ctx.check(not done, 'bad_request_accepted', str(kw))
                ctx.count('rejected')
                after = ds.files_in(m.dir) if m.dir.exists() else {}
                ctx.check(after == before, 'failed_update_changed_files',
                          f'{kw} {sorted(set(after) ^ set(before))[:3]}')
            elif r < 0.12:
                entry = rng.choice([
                    '../escaped.csv', 'seismic/../../escaped.csv',
                    str(base / 'absolute.csv'), 'seismic/../../cwd/escaped.csv',
                    '../lib rary2/escaped.csv'])
                evil = repo.hostile(repo.order[-1], entry)
                m.history.append(['hostile', entry.replace(str(base), '')])
                ctx.describe(history=m.history)
                repo.wild = True
                done = m.call({'commit': evil[:7]}, None, rng.random() < 0.7)
                repo.wild = False
                ctx.check(not done, 'hostile_list_accepted', entry)
                ctx.count('hostile_lists')
                after = ds.files_in(m.dir) if m.dir.exists() else {}
                ctx.check(after == before, 'hostile_list_changed_files',
                          f'{entry} {sorted(set(after) ^ set(before))[:3]}')
            elif r < 0.24:
                # what `import pelicun` does
                from pelicun.tools import dlml

                fresh = not (m.dir / ds.MANIFEST).exists()
                m.history.append(['import', fresh])
                ctx.describe(history=m.history)
                out = io.StringIO()
                with warnings.catch_warnings(), redirect_stderr(out), \
                        redirect_stdout(out):
                    warnings.simplefilter('ignore')
                    dlml.check_dlml_data()
                if fresh:
                    rel = repo.releases[-1]['tag_name']
                    m.after_success(repo.tags[rel]['commit'], rel, 'version',
                                    True, before, False)
                    ctx.count('succeeded')
                    ctx.count('first_imports')
                else:
                    after = ds.files_in(m.dir)
                    diff = {p for p in set(after) | set(before)
                            if after.get(p) != before.get(p)} - {ds.CACHE}
                    ctx.check(not diff, 'import_changed_files', str(sorted(diff)[:3]))
            else:
                kw, cli, commit, version = m.target()
                use_cache = rng.random() < 0.8
                use_cli = cli_case and step < 2
                m.history.append([kw, use_cache, use_cli, commit[:7]])
                ctx.describe(history=m.history)
                done = m.call(kw, cli if use_cli else None, use_cache)
                if not use_cache:
                    ctx.count('no_cache')
                if ctx.check(done, 'update_failed', f'{kw} {m.output}'):
                    m.after_success(commit, version,
                                    'commit' if 'commit' in kw else 'version',
                                    use_cache, before, use_cli)
                    ctx.count('succeeded')
                else:
                    return
            now = m.outside()
            ctx.check(now == outside, 'written_outside',
                      str(sorted(set(now) ^ set(outside))[:3]))
            if ctx.violations:
                return
    finally:
        shutil.rmtree(m.dir, ignore_errors=True)
