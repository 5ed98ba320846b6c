"""A loopback stand-in for the GitHub services used by pelicun.tools.dlml.

The repository behind it is a generated commit graph with file trees,
branches, light and annotated tags and releases.  Requests are logged, and a
fault plan maps request numbers to kinds of failure.
"""

from __future__ import annotations

import hashlib
import json
import os
import socket
import threading
import urllib.parse
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

OWNER, NAME = 'NHERI-SimCenter', 'DamageAndLossModelLibrary'
MANIFEST = 'model_files.txt'
CACHE = '.dlml_cache.json'

DIRS = [
    'seismic/building/component/FEMA P-58 2nd Edition',
    'seismic/building/portfolio/Hazus v6.1',
    'hurricane/building/portfolio/Hazus v4.2 coupled',
    'flood/building/portfolio/Hazus v6.1',
    'seismic/water_network/portfolio/Hazus v6.1 (draft)',
]
NAMES = [
    'fragility.csv', 'consequence_repair.csv', 'loss_repair.csv',
    'fragility.json', 'consequence_repair.json', 'input_schema.json',
    'pelicun_config.py', 'README & notes.md', 'set+extra.csv', 'empty.csv',
    'data_a.zip', 'ünit.csv',
]


def sha(rng) -> str:
    return ''.join(rng.choice('0123456789abcdef') for _ in range(40))


def content(rng, name) -> bytes:
    if name == 'empty.csv':
        return b''
    size = rng.choice([1, 40, 300, 8191, 8192, 8193, 20000])
    if name.endswith('.zip'):
        return rng.randbytes(size)
    head = b'ID,%d\r\n' % rng.randrange(10**9)
    return (head + bytes(rng.choice(b'0123456789,\n') for _ in range(64)) * 400)[
        : max(size, len(head))
    ]


class Repo:
    """A commit graph; every commit has a parent, a tree and a manifest."""

    def __init__(self, rng, many=False):
        self.rng = rng
        self.commits = {}  # sha -> {'parent', 'tree', 'listed'}
        self.order = []  # newest last
        self.branches = {}
        self.tags = {}  # name -> {'type', 'object', 'commit'}
        self.wild = False  # answer every request for a file
        self.releases = []  # {'tag_name', 'target_commitish'}; newest last
        pool = [f'{d}/{n}' for d in DIRS for n in NAMES]
        rng.shuffle(pool)
        if many:
            pool += [f'many/file_{i}.csv' for i in range(310)]
            pool = pool[-312:]
        self.pool = pool
        n = len(pool) - 1 if many else rng.randint(3, 7)
        tree = {p: content(rng, p.rsplit('/', 1)[1]) for p in pool[:n]}
        tree['LICENSE'] = b'BSD\n'
        self.root = self.add(None, tree, list(pool[:n]))

    def add(self, parent, tree, listed, branch='main'):
        rng = self.rng
        tree = dict(tree)
        listed = list(listed)
        rng.shuffle(listed)
        lines = ['# models']
        for p in listed:
            lines.append(p)
            if rng.random() < 0.1:
                lines.append(rng.choice(['', '# part', '   ']))
        sep = rng.choice(['\n', '\n', '\r\n'])
        tree[MANIFEST] = (sep.join(lines) + rng.choice(['', sep])).encode()
        new = sha(rng)
        while any(c[:7] == new[:7] for c in self.commits):
            new = sha(rng)
        self.commits[new] = {'parent': parent, 'tree': tree, 'listed': listed}
        self.order.append(new)
        self.branches[branch] = new
        return new

    def evolve(self, parent, branch='main', everything=False):
        """Commit on top of `parent`: modify, add, remove, rename, relist."""
        rng = self.rng
        old = self.commits[parent]
        tree = {p: b for p, b in old['tree'].items() if p != MANIFEST}
        listed = list(old['listed'])
        for p in list(listed):
            r = rng.random()
            if everything or r < 0.25:
                new = content(rng, p)
                tree[p] = new if new != tree[p] else new + b'x'
            elif r < 0.35 and len(listed) > 2:
                listed.remove(p)
                if rng.random() < 0.7:
                    body = tree.pop(p)
                    if rng.random() < 0.4:  # renamed
                        q = p + '.new'
                        tree[q] = body
                        listed.append(q)
                # otherwise only unlisted
            # otherwise unchanged
        for p in self.pool:
            if p not in tree and rng.random() < 0.1 and len(listed) < 12:
                tree[p] = content(rng, p.rsplit('/', 1)[1])
                if rng.random() < 0.8:
                    listed.append(p)
        for p in list(tree):
            if p not in listed and p != 'LICENSE' and rng.random() < 0.4:
                listed.append(p)
                if rng.random() < 0.3:
                    tree[p] += b'z'
        return self.add(parent, tree, listed, branch)

    def release(self, tag, commit, branch='main'):
        rng = self.rng
        annotated = rng.random() < 0.4
        self.tags[tag] = {
            'type': 'tag' if annotated else 'commit',
            'object': sha(rng) if annotated else commit,
            'commit': commit,
        }
        self.releases.append(
            {
                'tag_name': tag,
                'target_commitish': rng.choice([branch, branch, commit]),
            }
        )

    def hostile(self, parent, entry):
        """A commit with `entry` in its list of files."""
        head = self.branches['main']
        old = self.commits[parent]
        tree = {p: b for p, b in old['tree'].items() if p != MANIFEST}
        tree[entry] = b'escaped'
        new = self.add(parent, tree, [*old['listed'], entry])
        self.branches['main'] = head
        self.order.pop()
        return new

    # -- queries
    def resolve(self, ref):
        if ref in self.branches:
            return self.branches[ref]
        if ref in self.tags:
            return self.tags[ref]['commit']
        if len(ref) >= 7:
            found = [c for c in self.commits if c.startswith(ref.lower())]
            if len(found) == 1:
                return found[0]
        return None

    def ancestors(self, c):
        out = []
        while c:
            out.append(c)
            c = self.commits[c]['parent']
        return out

    def listed(self, c):
        """Files a complete library of commit `c` consists of."""
        tree = self.commits[c]['tree']
        out = {p: tree[p] for p in self.commits[c]['listed']}
        out[MANIFEST] = tree[MANIFEST]
        return out

    def compare(self, a, b):
        up_a, up_b = self.ancestors(a), self.ancestors(b)
        if a == b:
            return {'status': 'identical', 'files': []}
        if b in up_a:
            return {'status': 'behind', 'files': []}
        status = 'ahead' if a in up_b else 'diverged'
        base = next(c for c in up_b if c in up_a)
        old, new = self.commits[base]['tree'], self.commits[b]['tree']
        files = []
        gone = {p for p in old if p not in new}
        for p in sorted(new):
            if p in old and old[p] == new[p]:
                continue
            if p in old:
                files.append({'filename': p, 'status': 'modified'})
                continue
            src = next((q for q in sorted(gone) if old[q] == new[p]), None)
            if src is not None and new[p]:
                gone.discard(src)
                files.append(
                    {'filename': p, 'status': 'renamed', 'previous_filename': src}
                )
            else:
                files.append({'filename': p, 'status': 'added'})
        files += [{'filename': p, 'status': 'removed'} for p in sorted(gone)]
        return {'status': status, 'files': files[:300]}


class _Handler(BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.1'

    def log_message(self, *args):
        pass

    def do_GET(self):
        srv = self.server.owner
        path = urllib.parse.unquote(urllib.parse.urlsplit(self.path).path)
        kind, status, body = srv.answer(path)
        with srv.lock:
            number = len(srv.log)
            fault = srv.offline or srv.faults.get(number)
            srv.log.append((kind, path, status, fault))
        if fault == 'drop':
            self.close_connection = True
            try:
                self.connection.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            return
        if fault in {'500', '404', '403'}:
            status, body = int(fault), b'{"message": "simulated"}'
        cut = fault == 'truncate'
        if fault == 'garbage':
            body = b'<html>proxy</html>'
        elif fault == 'empty_object':
            body = b'{}'
        elif fault == 'list':
            body = b'[]'
        elif fault == 'null':
            body = b'null'
        self.send_response(status)
        self.send_header('Content-Length', str(len(body) + (7 if cut else 0)))
        self.send_header('Connection', 'close')
        self.end_headers()
        self.close_connection = True
        self.wfile.write(body[: len(body) // 2] if cut else body)


class Server:
    def __init__(self):
        self.repo = None
        self.lock = threading.Lock()
        self.reset()
        self.http = ThreadingHTTPServer(('127.0.0.1', 0), _Handler)
        self.http.daemon_threads = True
        self.http.owner = self
        threading.Thread(target=self.http.serve_forever, daemon=True).start()
        self.url = f'http://127.0.0.1:{self.http.server_address[1]}'

    def reset(self, faults=None, offline=None):
        self.log = []
        self.faults = dict(faults or {})
        self.offline = offline

    def env(self, data_dir):
        return {
            'PELICUN_GITHUB_API_URL': self.url + '/api',
            'PELICUN_GITHUB_RAW_URL': self.url + '/raw',
            'DLML_DATA_DIR': str(data_dir),
        }

    def use(self, data_dir):
        os.environ.update(self.env(data_dir))
        for name in ('DLML_REPO_OWNER', 'DLML_REPO_NAME', 'GITHUB_TOKEN'):
            os.environ.pop(name, None)
        for name in ('NO_PROXY', 'no_proxy'):
            os.environ[name] = '127.0.0.1'

    def answer(self, path):
        """(kind of request, HTTP status, body)"""
        repo = self.repo

        def ok(kind, data):
            return kind, 200, json.dumps(data).encode()

        def missing(kind):
            return kind, 404, b'{"message": "Not Found"}'

        raw = f'/raw/{OWNER}/{NAME}/'
        api = f'/api/repos/{OWNER}/{NAME}/'
        if path.startswith(raw):
            ref, _, name = path[len(raw):].partition('/')
            kind = 'manifest' if name == MANIFEST else 'file'
            commit = repo.resolve(ref)
            body = repo.commits[commit]['tree'].get(name) if commit else None
            if body is None and repo.wild and name != MANIFEST:
                body = b'escaped'
            return missing(kind) if body is None else (kind, 200, body)
        if not path.startswith(api):
            return ('file', 200, b'escaped') if repo.wild else missing('other')
        what = path[len(api):]
        if what == 'releases/latest':
            if not repo.releases:
                return missing('release')
            return ok('release', repo.releases[-1])
        if what.startswith('releases/tags/'):
            tag = what[len('releases/tags/'):]
            for rel in repo.releases:
                if rel['tag_name'] == tag:
                    return ok('release', rel)
            return missing('release')
        if what.startswith('git/refs/tags/'):
            tag = repo.tags.get(what[len('git/refs/tags/'):])
            if tag is None:
                return missing('tag')
            return ok(
                'tag', {'object': {'sha': tag['object'], 'type': tag['type']}}
            )
        if what.startswith('git/tags/'):
            for tag in repo.tags.values():
                if tag['object'] == what[len('git/tags/'):]:
                    return ok(
                        'tag_object',
                        {'object': {'sha': tag['commit'], 'type': 'commit'}},
                    )
            return missing('tag_object')
        if what == 'commits':
            head = repo.branches['main']
            return ok('commits', [{'sha': c} for c in repo.ancestors(head)][:30])
        if what.startswith('compare/'):
            a, _, b = what[len('compare/'):].partition('...')
            a, b = repo.resolve(a), repo.resolve(b)
            if a is None or b is None:
                return missing('compare')
            return ok('compare', repo.compare(a, b))
        return missing('other')


def files_in(folder) -> dict:
    """Relative path -> bytes of every file below `folder`."""
    out = {}
    for root, _, names in os.walk(folder):
        for name in names:
            p = os.path.join(root, name)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, folder).replace(os.sep, '/')] = f.read()
    return out


def digest(data: bytes) -> str:
    return hashlib.sha256(data).hexdigest()


def library(rng, many=False) -> Repo:
    """A repository with a few releases, a side branch and later commits."""
    repo = Repo(rng, many)
    tags = rng.choice(
        [
            ['v1.0.0', 'v1.1.0', 'v2.0.0'],
            ['v0.9', 'v0.10', 'v0.10.1'],
            ['1.0', '2.0-rc1', '2.0'],
            ['v1.0.0', 'beta', 'v1.1.0'],
        ]
    )
    commit = repo.root
    fork = commit
    for i, tag in enumerate(tags):
        repo.release(tag, commit)
        if i == 0 and rng.random() < 0.3:
            repo.release(tag + '.post1', commit)  # two releases of one commit
        for _ in range(rng.randint(1, 2)):
            commit = repo.evolve(commit, everything=many)
    side = repo.evolve(fork, branch='dev')
    repo.evolve(side, branch='dev')
    return repo
