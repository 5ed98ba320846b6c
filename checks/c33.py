"""C33: failed downloads never pass for a complete library.

Fault enumeration: for every generated state and operation the number of
requests is measured, and the operation is repeated from copies of the state
with every request failing in turn, in several ways (error answers, dropped
and truncated transfers, nonsense answers, Ctrl-C, a killed process, a full
disk).  A checker of the folder decides whether the outcome was truthful, and
follow-up operations have to complete the library.
"""
import io
import json
import os
import random
import resource
import shutil
import signal
import sys
import warnings
from contextlib import redirect_stderr, redirect_stdout

import dlmlserver as ds

ID = 'C33'
RULE = ('a failing request is reported, never leaves a library that passes for '
        'complete, and the next attempt completes it')
ASSUMPTIONS = [
    'a nonsense body of a listed file with status 200 and a matching length '
    'cannot be recognised and is not injected',
    'faults are injected at the requests and at file writes beyond a size '
    'limit; a crash inside one write call of the cache file is not injected',
    'after a failed update the library is accepted as flagged when the next '
    'import raises, repairs it, or warns while the server is unreachable, and '
    'the version check with a working server reports an available update',
]
QUICK, THOROUGH = 48, 1500
MIN_OBS = {'faults': 700, 'raised': 500, 'survived': 30, 'retries': 300,
           'returns': 100, 'flagged': 200, 'untouched': 50,
           'fault_drop': 60, 'fault_truncate': 60, 'fault_500': 60,
           'fault_interrupt': 40, 'fault_kill': 40, 'disk_full': 10,
           'sequences': 10, 'imports': 20}
SERVER = {}
API = {'release', 'tag', 'tag_object', 'commits', 'compare'}


def server():
    from pelicun.tools import dlml  # noqa: F401

    if SERVER.get('pid') != os.getpid():
        SERVER.update(pid=os.getpid(), server=ds.Server())
    return SERVER['server']


class Client:
    """Counts the requests of this process and interrupts one of them."""

    def __init__(self):
        from requests.adapters import HTTPAdapter

        self.real = HTTPAdapter.send
        self.cls = HTTPAdapter
        self.n = 0
        self.at = None
        self.how = None
        me = self

        def send(adapter, *args, **kwargs):
            n, me.n = me.n, me.n + 1
            if n == me.at and me.how == 'interrupt':
                raise KeyboardInterrupt
            if n == me.at and me.how == 'kill':
                os._exit(9)
            return me.real(adapter, *args, **kwargs)

        HTTPAdapter.send = send

    def close(self):
        self.cls.send = self.real


def quiet(fn, *args, **kwargs):
    """(exception or None, warnings)"""
    out = io.StringIO()
    with warnings.catch_warnings(record=True) as caught, redirect_stderr(out), \
            redirect_stdout(out):
        warnings.simplefilter('always')
        try:
            fn(*args, **kwargs)
        except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
            return e, caught
    return None, caught


def update(kwargs):
    from pelicun.tools import dlml

    return quiet(dlml.dlml_update, **kwargs)[0]


def do_import():
    from pelicun.tools import dlml

    return quiet(dlml.check_dlml_data)


def intact(folder, repo, commit):
    """Is the folder a complete copy of the commit?"""
    have = ds.files_in(folder)
    return all(have.get(p) == b for p, b in repo.listed(commit).items())


def record(folder):
    try:
        return json.loads((folder / ds.CACHE).read_text())
    except (OSError, ValueError):
        return {}


class State:
    def __init__(self, ctx, rng, srv, repo):
        self.ctx, self.rng, self.srv, self.repo = ctx, rng, srv, repo
        self.base = ctx.tmp()
        self.dir = self.base / 'state'
        self.work = self.base / 'work'
        self.installed = []
        self.history = []

    def fresh(self, source=None):
        """A scratch copy of the state (or of `source`), in use by pelicun."""
        shutil.rmtree(self.work, ignore_errors=True)
        source = source or self.dir
        if source.exists():
            shutil.copytree(source, self.work)
        self.srv.use(self.work)
        return self.work

    def operation(self, fresh_only=False):
        """(kwargs of dlml_update, requested commit, recorded version)"""
        rng, repo = self.rng, self.repo
        use_cache = rng.random() < 0.75
        r = rng.random()
        if r < 0.5:
            rel = rng.choice(repo.releases)['tag_name']
            kw, c, v = {'version': rel}, repo.tags[rel]['commit'], rel
        elif r < 0.7:
            rel = repo.releases[-1]['tag_name']
            kw, c, v = {'version': 'latest'}, repo.tags[rel]['commit'], rel
        elif r < 0.8:
            c = repo.branches['main']
            kw, v = {'commit': 'latest'}, f'commit-{c[:7]}'
        else:
            c = rng.choice(repo.order)
            kw, v = {'commit': c[:7]}, f'commit-{c[:7]}'
        return {**kw, 'use_cache': use_cache}, c, v

    def judge_success(self, kw, commit, version, where, known=False):
        """The operation returned: the library has to be complete."""
        ctx = self.ctx
        ok = intact(self.work, self.repo, commit)
        if not ok:
            ctx.violate('incomplete_success',
                        f'{kw} reported success at {where} without a complete '
                        f'copy of {version}; {self.history}')
        rec = record(self.work)
        if rec or kw['use_cache']:
            ctx.check(rec.get('version') == version
                      and isinstance(rec.get('commit_sha'), str)
                      and self.repo.resolve(rec['commit_sha']) == commit,
                      'wrong_record', f'{kw} at {where}: '
                      f'{rec.get("version")} {rec.get("commit_sha")}')
        return ok

    def branch_content(self, kw, version):
        """Did the release come from the head of its branch?"""
        rel = next((r for r in self.repo.releases if r['tag_name'] == version), None)
        if rel is None or rel['target_commitish'] not in self.repo.branches:
            return False
        head = self.repo.branches[rel['target_commitish']]
        rec = record(self.work)
        return (rec.get('commit_sha') in {None, rel['target_commitish']}
                and intact(self.work, self.repo, head))

    def judge_failure(self, kw, commit, version, before, where):
        """The operation failed: nothing may look complete that is not."""
        ctx, srv, repo = self.ctx, self.srv, self.repo
        failed = self.base / 'failed'
        shutil.rmtree(failed, ignore_errors=True)
        if self.work.exists():
            shutil.copytree(self.work, failed)
        after = ds.files_in(failed) if failed.exists() else {}
        hidden = {p for p in after if p.startswith('.') and p != ds.CACHE}
        untouched = {p: b for p, b in after.items() if p not in hidden} == before
        # a complete copy of exactly the recorded version is fine as well
        rec = record(failed)
        sha = rec.get('commit_sha')
        rec_commit = repo.resolve(sha) if isinstance(sha, str) else None
        complete = rec_commit is not None and intact(failed, repo, rec_commit)
        if untouched and (before or not after):
            ctx.count('untouched')
            if not before:
                ctx.check(ds.MANIFEST not in after, 'silent_partial', where)
        elif complete:
            ctx.count('complete_anyway')
        else:
            ctx.count('flagged')
            srv.reset(offline='drop')
            self.fresh(failed)
            err, caught = do_import()
            ctx.count('imports')
            ctx.check(err is not None or caught, 'silent_partial',
                      f'{kw} failed at {where}; the next import accepts the '
                      f'mixed library without a warning; {self.history}')
            srv.reset()
            self.fresh(failed)
            if (self.work / ds.MANIFEST).exists():
                from pelicun.tools import dlml

                info = {}
                err, _ = quiet(lambda: info.update(dlml.check_dlml_version()))
                ctx.check(err is None and info.get('update_available') is True,
                          'partial_up_to_date',
                          f'{kw} failed at {where}; version check of the mixed '
                          f'library: {info}; {self.history}')
            else:
                err, caught = do_import()
                latest = repo.tags[repo.releases[-1]['tag_name']]['commit']
                ctx.check(err is None and intact(self.work, repo, latest),
                          'import_after_failure', f'{where} {err!r}')
        # the next attempt completes the library
        srv.reset()
        self.fresh(failed)
        err = update(kw)
        ctx.count('retries')
        if ctx.check(err is None, 'retry_failed', f'{kw} {where} {err!r}'):
            self.judge_success(kw, commit, version, f'retry after {where}')
        # so does going back to the previous version
        if self.installed:
            back, c0, v0 = self.installed[-1]
            self.fresh(failed)
            back = {**back, 'use_cache': True}
            err = update(back)
            ctx.count('returns')
            if ctx.check(err is None, 'return_failed', f'{back} {where} {err!r}'):
                self.judge_success(back, c0, v0, f'return after {where}')
        return failed


def forked(fn):
    """Run fn in a child that may die."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            fn()
        finally:
            os._exit(0)
    return os.waitpid(pid, 0)[1]


def case(ctx):
    rng = random.Random(int(ctx.rng.integers(2**31)))
    srv = server()
    repo = ds.library(rng)
    srv.repo = repo
    st = State(ctx, rng, srv, repo)
    client = Client()
    try:
        run(ctx, rng, srv, repo, st, client)
    finally:
        client.close()


def run(ctx, rng, srv, repo, st, client):
    srv.reset()
    srv.use(st.dir)
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        op = st.operation()
        st.history.append(op[0])
        err = update(op[0])
        if not ctx.check(err is None, 'clean_update_failed', f'{op[0]} {err!r}'):
            return
        st.installed.append(op)
    if st.installed and rng.random() < 0.2:
        (st.dir / ds.CACHE).unlink(missing_ok=True)
        st.history.append('cache deleted')
    before = ds.files_in(st.dir) if st.dir.exists() else {}

    # the operation, undisturbed
    for _ in range(20):
        kw, commit, version = st.operation()
        if not st.installed or commit != st.installed[-1][1]:
            break
    st.history.append(kw)
    ctx.describe(history=[str(h) for h in st.history])
    st.fresh()
    srv.reset()
    client.n = 0
    err = update(kw)
    if not ctx.check(err is None, 'clean_update_failed', f'{kw} {err!r}'):
        return
    st.judge_success(kw, commit, version, 'no fault')
    plan = [entry[0] for entry in srv.log]

    def attempt(faults=None, how=None, at=None):
        """One disturbed run on a copy; (error, name of the place)"""
        srv.reset(faults)
        client.n, client.at, client.how = 0, at, how
        try:
            if how == 'kill':
                status = forked(lambda: update(kw))
                return ('killed' if status else None)
            return update(kw)
        finally:
            client.at = None

    def judge(err, where, kinds):
        # the release may come from the branch head when its tag is unavailable
        if err is None:
            ctx.count('survived')
            if (kinds & {'tag', 'tag_object'} and not intact(st.work, repo, commit)
                    and st.branch_content(kw, version)):
                if not ctx.counts.get('branch_fallback'):  # once per case
                    ctx.violate('tag_lookup_failure_uses_branch',
                                f'{version} was taken from the head of its '
                                f'branch, because the {where} failed')
                ctx.count('branch_fallback')
            else:
                st.judge_success(kw, commit, version, where)
        else:
            ctx.count('raised')
            st.judge_failure(kw, commit, version, before, where)

    thorough = ctx.tier == 'thorough'
    for i, kind in enumerate(plan):
        options = ['500', '404', '403', 'drop', 'truncate', 'interrupt', 'kill']
        if kind in API:
            options += ['garbage', 'empty_object', 'list', 'null']
            chosen = options
        else:
            chosen = options if thorough else rng.sample(options, 3)
        for fault in chosen:
            st.fresh()
            where = f'request {i} of {len(plan)} ({kind}, {fault})'
            ctx.count('faults')
            ctx.count(f'fault_{fault}')
            if fault in {'interrupt', 'kill'}:
                err = attempt(how=fault, at=i)
            else:
                err = attempt({i: fault})
            judge(err, where, {kind})
            ctx.observe((kind, fault, err is not None, kw['use_cache'],
                         bool(before), len(st.installed)))
            if ctx.violations and any(
                    v['key'] != 'tag_lookup_failure_uses_branch'
                    for v in ctx.violations):
                return

    # a full disk: files beyond the limit cannot be written
    listed = repo.listed(commit)
    sizes = sorted({len(b) for b in listed.values()})
    if sizes[-1] > 8000:
        st.fresh()
        ctx.count('disk_full')
        ctx.count('faults')
        old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (6000, hard))
        try:
            err = attempt()
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            signal.signal(signal.SIGXFSZ, old)
        judge(err, 'a full disk', set())

    # several failures in a row, then a working server
    ctx.count('sequences')
    st.fresh()
    trail = []
    for _ in range(rng.randint(2, 4)):
        files = [i for i, k in enumerate(plan) if k not in {'tag', 'tag_object'}]
        i = rng.choice(files)
        fault = rng.choice(['500', 'drop', 'truncate', 'interrupt', 'kill'])
        if fault in {'interrupt', 'kill'}:
            err = attempt(how=fault, at=i)
        else:
            err = attempt({i: fault})
        trail.append((i, fault, err is not None))
        if err is None:
            st.judge_success(kw, commit, version, f'sequence {trail}')
    srv.reset()
    err = update(kw)
    if ctx.check(err is None, 'retry_failed', f'{kw} after {trail}: {err!r}'):
        st.judge_success(kw, commit, version, f'sequence {trail}')
