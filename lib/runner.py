"""Runner shared by every monitor.

A check module (checks/<id>.py) provides

    ID, RULE, ASSUMPTIONS (optional)
    QUICK, THOROUGH            number of cases per tier
    def case(ctx): ...         one monitored execution of the real code

Each case draws everything from ctx.rng, seeded with (VERIF_SEED, id, index),
so a case index is a replay.  Cases are spread over forked workers.
"""
import argparse
import hashlib
import importlib.util
import json
import multiprocessing as mp
import os
import pickle
import shutil
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(0, str(VERIF / 'lib'))
if __name__ == '__main__':
    sys.modules['runner'] = sys.modules['__main__']


def make_dlml(path):
    """Empty model library that keeps `import pelicun` offline."""
    path.mkdir(parents=True, exist_ok=True)
    (path / 'model_files.txt').write_text('')
    (path / '.dlml_cache.json').write_text(
        '{"last_version_check": "2999-01-01T00:00:00"}')


class Violation(Exception):
    pass


class Skip(Exception):
    """The drawn case is not meaningful."""


class Ctx:
    def __init__(self, mod, seed, index, tier, scratch):
        import numpy as np
        self.mod, self.seed, self.index, self.tier = mod, seed, index, tier
        h = hashlib.sha256(f'{mod.ID}:{seed}:{index}'.encode()).digest()
        self.rng = np.random.default_rng(int.from_bytes(h[:8], 'little'))
        self.scratch = scratch
        self.counts = {}
        self.sigs = set()
        self.violations = []
        self.sample = None
        self.desc = {}

    # ---- what the monitors observed
    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + int(n)

    def observe(self, *sig):
        """A distinct, non-trivial observation (state/branch/shape) of this run."""
        self.sigs.add('|'.join(str(s) for s in sig))

    def describe(self, **kw):
        self.desc.update(kw)

    # ---- verdicts
    def violate(self, key, msg, **detail):
        if len(self.violations) < 20:
            self.violations.append(
                {'key': key, 'msg': str(msg)[:1500],
                 'detail': json.loads(json.dumps(detail, default=str))})

    def check(self, cond, key, msg='', **detail):
        self.count('assertions')
        if not bool(cond):
            self.violate(key, msg() if callable(msg) else msg, **detail)
            return False
        return True

    def close(self, a, b, key, msg='', rtol=1e-8, atol=1e-10, **detail):
        """Elementwise agreement; NaN agrees with NaN."""
        import numpy as np
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        self.count('assertions')
        self.count('values_compared', max(a.size, b.size))
        if a.shape != b.shape:
            self.violate(key, f'{msg}: shape {a.shape} vs expected {b.shape}', **detail)
            return False
        ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            w = np.argwhere(~ok)[0]
            t = tuple(int(i) for i in w)
            self.violate(key, f'{msg}: {int((~ok).sum())}/{ok.size} differ, first at {t}: '
                              f'observed {a[t]!r} expected {b[t]!r}', **detail)
            return False
        return True

    def tmp(self, name='d'):
        return Path(tempfile.mkdtemp(prefix=name + '_', dir=self.scratch))


def from_product(exc):
    """Was the exception raised while product code was on the stack?"""
    tb = exc.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if '/pelicun/' in f and not f.startswith(str(VERIF)):
            return True
        tb = tb.tb_next
    return False


def run_case(mod, seed, index, tier, scratch):
    cdir = Path(tempfile.mkdtemp(prefix=f'case{index}_', dir=scratch))
    ctx = Ctx(mod, seed, index, tier, cdir)
    os.chdir(cdir)
    err = None
    skipped = False
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.case(ctx)
    except Skip:
        skipped = True
    except Violation as e:
        ctx.violate(getattr(e, 'key', 'violation'), str(e))
    except (Exception, SystemExit) as e:  # noqa: BLE001
        tb = traceback.format_exc()
        if from_product(e):
            ctx.violate(f'raised:{type(e).__name__}',
                        f'unexpected {type(e).__name__}: {e}', traceback=tb[-2500:])
        else:
            # the oracle could not read what the product returned
            ctx.violate(f'oracle:{type(e).__name__}',
                        f'output could not be interpreted: {type(e).__name__}: {e}',
                        traceback=tb[-2500:])
    finally:
        os.chdir(scratch)
        shutil.rmtree(cdir, ignore_errors=True)
    return {'index': index, 'counts': ctx.counts, 'sigs': ctx.sigs,
            'violations': ctx.violations, 'desc': ctx.desc, 'error': err,
            'skipped': skipped}


def worker(mod, seed, indices, tier, scratch, deadline, out):
    # progress output of the product must not reach our stdout
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    res = []
    for i in indices:
        if time.time() > deadline:
            break
        # a case in progress: if we die here the parent knows which one
        Path(out + '.cur').write_text(str(i))
        res.append(run_case(mod, seed, i, tier, scratch))
        with open(out + '.tmp', 'wb') as f:
            pickle.dump(res, f)
        os.replace(out + '.tmp', out)
        if sum(len(r['violations']) for r in res) > 40:
            break
    Path(out + '.done').write_text('1')
    os._exit(0)


def load_known(pid):
    p = VERIF / 'known_findings.json'
    if not p.exists():
        return []
    return [k for k in json.loads(p.read_text())['findings'] if k['property'] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--only', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    pid = a.id
    t0 = time.time()
    scratch = Path(tempfile.mkdtemp(prefix=f'verif_{pid}_'))
    rc = 3
    try:
        make_dlml(scratch / 'dlml')
        os.environ['DLML_DATA_DIR'] = str(scratch / 'dlml')
        os.environ['HOME'] = str(scratch)
        sys.path.insert(0, str(REPO))
        warnings.simplefilter('ignore')
        import pelicun
        assert Path(pelicun.__file__).resolve().is_relative_to(REPO), pelicun.__file__
        spec = importlib.util.spec_from_file_location(
            pid.lower(), VERIF / 'checks' / f'{pid.lower()}.py')
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        rc = drive(a, mod, pid, scratch, t0)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def drive(a, mod, pid, scratch, t0):
    seed, tier = a.seed, a.tier
    if a.replay:
        r = json.loads(Path(a.replay).read_text())
        seed, tier, idx = r['seed'], r.get('tier', 'quick'), [r['index']]
    elif a.only is not None:
        idx = [a.only]
    else:
        n = a.cases or (mod.THOROUGH if tier == 'thorough' else mod.QUICK)
        idx = list(range(n))
    cap = 840 if tier == 'thorough' else 300
    deadline = t0 + cap
    jobs = max(1, min(a.jobs, len(idx)))
    procs = []
    for j in range(jobs):
        out = str(scratch / f'w{j}.pkl')
        p = mp.get_context('fork').Process(
            target=worker, args=(mod, seed, idx[j::jobs], tier, scratch, deadline, out))
        p.start()
        procs.append((p, out))
    results, crashed, hung = [], [], []
    for p, out in procs:
        p.join(max(1, deadline + 30 - time.time()))
        if p.is_alive():
            p.kill()
            p.join()
            hung.append(int(Path(out + '.cur').read_text()))
        elif not Path(out + '.done').exists():
            crashed.append(int(Path(out + '.cur').read_text())
                           if Path(out + '.cur').exists() else -1)
        if Path(out).exists():
            with open(out, 'rb') as f:
                results += pickle.load(f)
    results.sort(key=lambda r: r['index'])
    counts, sigs, samples, errors, skipped = {}, set(), [], [], 0
    viol = []
    for r in results:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        sigs |= r['sigs']
        if r['error']:
            errors.append((r['index'], r['error']))
        skipped += r['skipped']
        if len(samples) < 4 and r['desc'] and not r['skipped']:
            samples.append({'case': r['index'], **json.loads(json.dumps(r['desc'], default=str))})
        for v in r['violations']:
            viol.append((r['index'], v))
    for i in hung:
        viol.append((i, {'key': 'hang', 'msg': 'case did not finish', 'detail': {}}))
    for i in crashed:
        viol.append((i, {'key': 'crash', 'msg': 'worker process died', 'detail': {}}))

    known = load_known(pid)
    unlisted, seen_known = [], {}
    for i, v in viol:
        k = next((k for k in known if k['key'] == v['key']), None)
        if k:
            seen_known.setdefault(k['key'], k)
        else:
            unlisted.append((i, v))
    if not (a.replay or a.only is not None):
        for k in known:
            print(f"KNOWN-FINDING: property={pid} {k['what']}"
                  + ('' if k['key'] in seen_known else ' (not reached in this run)'))

    rdir = VERIF / 'evidence' / 'replays'
    byk = {}
    for i, v in unlisted:
        byk.setdefault(v['key'], (i, v))
    nprint = 0
    for key, (i, v) in sorted(byk.items(), key=lambda x: x[1][0]):
        rdir.mkdir(parents=True, exist_ok=True)
        rp = rdir / f"{pid}_{hashlib.sha256(key.encode()).hexdigest()[:8]}_{i}.json"
        rp.write_text(json.dumps({'property': pid, 'seed': seed, 'tier': tier,
                                  'index': i, **v}, indent=1))
        if nprint < 10:
            print(f'VIOLATION property={pid} replay={rp}')
            print(f"  case {i} [{key}] {v['msg'][:600]}")
            if v['detail'].get('traceback') and (a.only is not None or a.replay):
                print(v['detail']['traceback'])
        nprint += 1

    done = len(results)
    min_obs = getattr(mod, 'MIN_OBS', {})
    starved = [k for k, n in min_obs.items()
               if counts.get(k, 0) < n and not (a.replay or a.only is not None or a.cases)]
    if not (a.replay or a.only is not None):
        ev = {
            'property': pid, 'tier': tier, 'seed': seed,
            'level': getattr(mod, 'LEVEL', 'exploration'),
            'coverage': {
                'evaluations': done - skipped,
                'distinct_nontrivial': len(sigs),
                'rule': mod.RULE,
                'samples': samples or [{'note': 'no case completed'}],
                'monitor_counts': counts,
                'cases_skipped': skipped,
                'cases_requested': len(idx),
                'observed_signatures': sorted(sigs)[:60],
            },
            'assumptions': getattr(mod, 'ASSUMPTIONS', []),
            'wall_s': round(time.time() - t0, 2),
            'violations': len(unlisted),
        }
        (VERIF / 'evidence').mkdir(exist_ok=True)
        (VERIF / 'evidence' / f'{pid}.json').write_text(json.dumps(ev, indent=1))
    print(f'{pid} {tier} seed={seed}: cases={done} skipped={skipped} distinct={len(sigs)} '
          f'counts={counts} violations={len(unlisted)} wall={time.time() - t0:.1f}s')
    if unlisted:
        return 1
    if errors:
        print('HARNESS ERROR in case', errors[0][0])
        print(errors[0][1][-3000:])
        return 3
    if starved and done == len(idx):
        print('INCONCLUSIVE: monitors starved:', starved)
        return 4
    if done < max(1, len(idx) // 4):
        print('INCONCLUSIVE: too few cases completed')
        return 4
    return 0


if __name__ == '__main__':
    main()
