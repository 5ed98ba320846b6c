"""C35: log files record every message; warnings are emitted once and in full."""
import contextlib
import io
import json
import os
import re
import subprocess
import sys
import warnings
from datetime import datetime, timedelta

import pandas as pd
import dmg
import loss
import pbe

ID = 'C35'
RULE = ('seeded histories of messages, dividers, warnings and emissions on several loggers (with files, printing, microseconds, changes of '
        'the working directory), each file compared with a model of its lines; assessments with interleaved stages, every message seen by a '
        'hook on the logger compared with the files; unhandled errors in a separate process')
QUICK, THOROUGH = 170, 8000
MIN_OBS = {'messages': 600, 'lines': 3000, 'warnings': 300, 'repeated': 60, 'emissions': 300, 'printed': 200, 'workflow_messages': 300, 'workflow_warnings': 15,
           'unhandled': 2, 'files': 150}
ASSUMPTIONS = ['messages without control characters other than line feeds',
               'unhandled errors are recorded in the log of every assessment of the process']

TEXT = ['Loading', 'a', '', ' ', '-', 'é ü 测试', 'tab\there', 'two\nlines', '\n', 'trail\n', '\nlead', 'a\n\nb\n  indented', 'x         y', '         nine',
        '{braces} %s \\n', 'x' * 300, 'spaces                          end', '"quotes\'', '[31mno escape', 'Warning: none']


def text(rng, i):
    t = ' '.join(pbe.pick(rng, TEXT) for _ in range(int(rng.integers(1, 4))))
    return t + (f' #{i}' if rng.random() < .6 else '')


def stamp(ms):
    return r'\d\d:\d\d:\d\d' + (r':\d{6}' if ms else '')


def case(ctx):
    if ctx.index % 40 == 5:
        return unhandled(ctx)
    if ctx.index % 4 == 3:
        return workflow(ctx)
    direct(ctx)


def read(p):
    with open(p, encoding='utf-8', newline='') as f:
        return f.read()


def compare(ctx, name, got, want, ms, span):
    """want: lines, with None for a time stamp in front."""
    lines = got.split('\n')
    ctx.count('files')
    if not ctx.check(lines[0] == '' and len(lines) == len(want) + 1, 'lines', lambda: f'{name}: {len(lines) - 1} lines expected {len(want)}: {lines[-3:]} expected {want[-3:]}'):
        for i, (g, (s, w)) in enumerate(zip(lines[1:], want)):
            if not g.endswith(w):
                ctx.violate('lines', f'{name}: first difference in line {i}: {g!r} expected {w!r}')
                return False
        return False
    last = ''
    for i, (g, (s, w)) in enumerate(zip(lines[1:], want)):
        ctx.count('lines')
        if s:
            m = re.fullmatch('(' + stamp(ms) + ') ' + re.escape(w), g, re.S)
            if not ctx.check(m, 'line', lambda: f'{name} line {i}: {g!r} expected <time> {w!r}'):
                return False
            t = m.group(1)
            if span[0].date() == span[1].date():
                lo, hi = [x.strftime('%H:%M:%S' + (':%f' if ms else '')) for x in span]
                ctx.check(lo <= t <= hi and t >= last, 'time', lambda: f'{name} line {i}: {t} not within {lo} {hi} or before {last}')
                last = t
        elif not ctx.check(g == w, 'line', lambda: f'{name} line {i}: {g!r} expected {w!r}'):
            return False
    return True


class Model:
    def __init__(self, ms):
        self.ms = ms
        self.pad = ' ' * (16 if ms else 9)
        self.lines, self.stack, self.emitted, self.out, self.warned = [], [], set(), [], []

    def msg(self, t='', ts=True, sp=True):
        for i, l in enumerate(t.split('\n')):
            if ts and i == 0:
                self.lines.append((True, l))
            else:
                self.lines.append((False, (self.pad if ts or sp else '') + l))

    def add(self, t):
        if t not in self.stack:
            self.stack.append(t)

    def emit(self):
        new = [t for t in self.stack if t not in self.emitted]
        self.warned += new
        self.emitted |= set(self.stack)
        self.stack = []
        return new


def plain(w):
    """The text of an emitted warning without its layout."""
    s = re.sub(r'\x1b\[\d+m', '', str(w))
    return s


def direct(ctx):
    from pelicun import base
    from pelicun.pelicun_warnings import InconsistentUnitsError, PelicunWarning
    rng = ctx.rng
    d = ctx.tmp()
    os.chdir(d)
    t0 = datetime.now()
    loggers = []
    for i in range(int(rng.integers(1, 4))):
        ms = bool(rng.random() < .4)
        kind = pbe.pick(rng, ['relative', 'absolute', 'none', 'noext', 'dots'])
        f = {'relative': f'log{i}.txt', 'absolute': str(d / f'sub{i}' / 'pelicun.log'), 'none': None, 'noext': f'logfile{i}', 'dots': f'a.b{i}.c.log'}[kind]
        if kind == 'absolute':
            (d / f'sub{i}').mkdir()
        if f and rng.random() < .4:
            (d / f).write_text('old content\n')
        pr = bool(rng.random() < .3)
        via = bool(rng.random() < .4)
        if via:
            with contextlib.redirect_stdout(io.StringIO()):
                a = pbe.assessment({'LogFile': f, 'LogShowMS': ms, 'PrintLog': pr, 'Verbose': False})
            lg = a.log
        else:
            lg = base.Logger(f, verbose=False, log_show_ms=ms, print_log=pr)
        p = None if f is None else d / f
        loggers.append((lg, Model(ms), p, pr, via))
    if rng.random() < .4:
        (d / 'elsewhere').mkdir()
        os.chdir(d / 'elsewhere')
    starts = [len(read(p).split('\n')) - 1 if p else 0 for _, _, p, _, _ in loggers]
    trace = []
    for k in range(int(rng.integers(5, 40))):
        j = int(rng.integers(len(loggers)))
        lg, m, p, pr, via = loggers[j]
        op = pbe.pick(rng, ['msg', 'msg', 'msg', 'div', 'add', 'add', 'emit', 'warning'])
        t = text(rng, k)
        if op in ('add', 'warning') and trace and rng.random() < .4:
            old = [x[2] for x in trace if x[1] in ('add', 'warning')]
            if old:
                t = pbe.pick(rng, old)
                ctx.count('repeated')
        trace.append((j, op, t))
        out = io.StringIO()
        before = len(m.lines)
        with warnings.catch_warnings(record=True) as rec, contextlib.redirect_stdout(out):
            warnings.simplefilter('always')
            if op == 'msg':
                ctx.count('messages')
                ts, sp = bool(rng.random() < .5), bool(rng.random() < .5)
                lg.msg(t, prepend_timestamp=ts, prepend_blank_space=sp)
                m.msg(t, ts, sp)
            elif op == 'div':
                ts = bool(rng.random() < .5)
                lg.div(prepend_timestamp=ts)
                m.msg('-' * ((63 if m.ms else 70) if ts else 80), ts)
            elif op == 'add':
                lg.add_warning(t)
                m.add(t)
            elif op == 'emit':
                lg.emit_warnings()
            else:
                lg.warning(t)
                m.add(t)
        new = m.emit() if op in ('emit', 'warning') else []
        ctx.count('emissions', op in ('emit', 'warning'))
        got = [plain(r.message) for r in rec]
        want = ['\n' + ''.join(m.pad + l + '\n' for l in w.split('\n')) for w in new]
        ctx.count('warnings', len(want))
        ctx.check(got == want and all(issubclass(r.category, PelicunWarning) for r in rec), 'warnings', lambda: f'{op}: emitted {got} expected {want}')
        if pr:
            ctx.count('printed', len(m.lines) - before)
            printed = out.getvalue().split('\n')[:-1]
            ctx.check(len(printed) == len(m.lines) - before, 'printed', lambda: f'printed {printed}')
            for g, (s, w) in zip(printed, m.lines[before:]):
                ctx.check(re.fullmatch((stamp(m.ms) + ' ' if s else '') + re.escape(w), g), 'printed', lambda: f'printed {g!r} expected {w!r}')
        else:
            ctx.check(out.getvalue() == '', 'printed', lambda: f'printed {out.getvalue()!r}')
        ctx.observe(op, m.ms, pr, p is None, '\n' in t, bool(new))
    ctx.describe(trace=[list(x) for x in trace])
    t1 = datetime.now() + timedelta(seconds=1)
    for n, ((lg, m, p, pr, via), s) in enumerate(zip(loggers, starts)):
        if p is None:
            ctx.check(lg.log_file is None, 'files', 'a log file without a name')
            continue
        got = read(p)
        if via:
            # the assessment introduces itself first
            rest = got.split('\n')
            ctx.check('old content' not in got, 'files', 'old content in the log')
            got = '\n' + '\n'.join(rest[s + 1:]) if len(rest) > s + 1 else ''
        if m.lines or not via:
            compare(ctx, f'log {n}', got if m.lines else '\n' + got if got else '', m.lines, m.ms, (t0, t1)) if m.lines else ctx.check(got == '', 'lines', lambda: f'{got!r}')
        wf = p.parent / (p.stem + '_warnings' + p.suffix)
        want = ''.join('\n' + ''.join(l + '\n' for l in w.split('\n')) for w in m.warned)
        ctx.check(wf.exists() and read(wf) == want, 'warnings-file', lambda: f'{read(wf) if wf.exists() else None!r} expected {want!r}')
    names = sorted(str(p.relative_to(d)) for p in d.rglob('*') if p.is_file())
    want = sorted(str(x.relative_to(d)) for _, _, p, _, _ in loggers if p for x in (p, p.parent / (p.stem + '_warnings' + p.suffix)))
    ctx.check(names == want, 'files', lambda: f'files {names} expected {want}')
    e = InconsistentUnitsError('Units differ.', file='x.csv')
    ctx.check('Units differ.' in str(e) and 'x.csv' in str(e), 'error', str(e))


def workflow(ctx):
    """Interleaved assessments: every message goes to the file of its own assessment."""
    from pelicun import base
    rng = ctx.rng
    d = ctx.tmp()
    seen, warned = {}, {}
    omsg, oadd = base.Logger.msg, base.Logger.add_warning
    t0 = datetime.now()

    def msg(self, msg='', *, prepend_timestamp=True, prepend_blank_space=True):
        seen.setdefault(id(self), []).append((msg, prepend_timestamp, prepend_blank_space))
        return omsg(self, msg, prepend_timestamp=prepend_timestamp, prepend_blank_space=prepend_blank_space)

    def add(self, msg):
        warned.setdefault(id(self), []).append(msg)
        return oadd(self, msg)
    base.Logger.msg, base.Logger.add_warning = msg, add
    jobs = []
    try:
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            for i in range(int(rng.integers(2, 4))):
                m = dmg.Model(rng, n=3, exprs=False, max_rows=1)
                L = loss.Losses(rng, m, lf=0., p_family=0.)
                ms = bool(rng.random() < .5)
                f = d / f'log{i}.txt'
                opts = {**m.opts, 'LogFile': str(f), 'LogShowMS': ms, 'Verbose': bool(rng.random() < .5), 'PrintLog': False}
                extra = None
                if rng.random() < .5:
                    # an incomplete definition leads to a warning
                    extra = list(m.cmps)[0] if len(m.frag) > 1 and list(m.cmps)[0] in m.frag.index else 'none'
                a = pbe.assessment(opts, m.stories, 1)
                jobs.append((a, m, L, f, ms, extra))
            stages = [['demand', 'asset', 'damage', 'loss', 'warn', 'aggregate'] for _ in jobs]
            while any(stages):
                i = int(rng.choice([k for k, s in enumerate(stages) if s]))
                a, m, L, f, ms, extra = jobs[i]
                others = {k: read(jobs[k][3]) for k in range(len(jobs)) if k != i}
                st = stages[i].pop(0)
                if st == 'demand':
                    a.demand.load_sample(m.demands)
                elif st == 'asset':
                    a.asset.load_cmp_model({'marginals': m.marginals})
                    a.asset.generate_cmp_sample(sample_size=m.n)
                elif st == 'damage':
                    fr = m.frag.drop(index=extra) if extra and extra != 'none' else m.frag
                    a.damage.load_model_parameters([fr], set(a.asset.list_unique_component_ids()))
                    a.damage.calculate()
                elif st == 'loss':
                    L.load(a)
                    a.loss.calculate()
                elif st == 'warn' and extra:
                    a.log.warning(f'shared text\nassessment {i if rng.random() < .5 else ""}')
                    a.log.add_warning('never emitted')
                elif st == 'aggregate':
                    a.loss.aggregate_losses(future=bool(rng.random() < .5))
                for k, t in others.items():
                    ctx.check(read(jobs[k][3]) == t, 'other-file', lambda: f'{st} of assessment {i} wrote in the log of {k}')
                ctx.observe('workflow', st, ms, len(jobs))
    finally:
        base.Logger.msg, base.Logger.add_warning = omsg, oadd
    t1 = datetime.now() + timedelta(seconds=1)
    got = sorted(plain(r.message) for r in rec if r.category.__name__ == 'PelicunWarning')
    want = []
    for i, (a, m, L, f, ms, extra) in enumerate(jobs):
        M = Model(ms)
        for t, ts, sp in seen.get(id(a.log), []):
            M.msg(t, ts, sp)
        ctx.count('workflow_messages', len(seen.get(id(a.log), [])))
        compare(ctx, f'assessment {i}', read(f), M.lines, ms, (t0, t1))
        ws = list(dict.fromkeys(warned.get(id(a.log), [])))
        ws = [w for w in ws if w != 'never emitted' or 'never emitted' in read(d / f'log{i}_warnings.txt')]
        ctx.count('workflow_warnings', len(ws))
        txt = read(d / f'log{i}_warnings.txt')
        for w in ws:
            ctx.check(txt.count('\n' + '\n'.join(w.split('\n')) + '\n') >= 1, 'warnings-file', lambda: f'{w!r} is not in the warnings file')
        ctx.check(len(txt) == sum(len(w) + 2 for w in ws), 'warnings-file', lambda: f'{txt!r} expected {ws}')
        want += ['\n' + ''.join(M.pad + l + '\n' for l in w.split('\n')) for w in ws]
    ctx.check(got == sorted(want), 'warnings', lambda: f'emitted {got} expected {sorted(want)}')


SCRIPT = '''
import sys
from pelicun.assessment import Assessment
a = Assessment({"LogFile": "a.log", "PrintLog": False})
b = Assessment({"LogFile": "b.log", "PrintLog": True, "LogShowMS": True})
a.log.msg("before")
def inner():
    raise ValueError("the cause %d\\nsecond line")
inner()
'''


def unhandled(ctx):
    d = ctx.tmp()
    n = int(ctx.rng.integers(1e6))
    (d / 's.py').write_text(SCRIPT % n)
    ctx.count('unhandled')
    r = subprocess.run([sys.executable, 's.py'], cwd=d, capture_output=True, text=True, timeout=300,
                       env={**os.environ, 'PYTHONPATH': os.environ.get('VERIF_REPO', '/repo')})
    ctx.check(r.returncode == 1, 'exit', f'exit code {r.returncode}')
    ctx.check(f'the cause {n}' in r.stderr, 'unhandled', r.stderr[-300:])
    for f in ('a.log', 'b.log'):
        t = read(d / f)
        ctx.check(t.count(f'ValueError: the cause {n}\n') == 1 and 'second line' in t and 'in inner' in t, 'unhandled', lambda: f'{f}: {t[-600:]!r}')
    ctx.check('before' in read(d / 'a.log') and 'before' not in read(d / 'b.log'), 'other-file', 'a message in the log of another assessment')
    ctx.check(r.stdout.count(f'ValueError: the cause {n}\n') == 1, 'printed', r.stdout[-300:])
    ctx.observe('unhandled')
