"""Exploration engine shared by all checks.

A check module (checks/Cxx.py) defines

    PROPERTY, LEVEL, RULE, ASSUMPTIONS
    def tasks(tier): -> list of (function name, kwargs)   # a partition of the bounded space
    functions f(rec, **kwargs)                            # enumerate one part, report into rec

Every task runs in its own forked process (pristine module and configuration
state, own time limit), the parts are merged, violations are written as replay
files and the evidence file is rewritten.  The partition is complete: a run that
could not finish a part says so and is an error, never a pass.
"""
import ast
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import json
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MAXFAIL = 25     # per task
MAXREPLAY = 5    # replay files per run
TRANSFORM = None # instrumentation of the package's syntax trees (mc/steps.py)


class _SourceOnly(importlib.machinery.SourceFileLoader):
    """Always compile chaosmagpy from the working tree; never trust cached bytecode."""
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if TRANSFORM is None:
            return self.source_to_code(self.get_data(path), path)
        return compile(TRANSFORM(ast.parse(self.get_data(path), path), path), path, 'exec', dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'chaosmagpy' and not fullname.startswith('chaosmagpy.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        if os.path.isdir(base):
            f, sub = os.path.join(base, '__init__.py'), [base]
        else:
            f, sub = base + '.py', None
        if not os.path.exists(f):
            return None
        return importlib.util.spec_from_file_location(
            fullname, f, loader=_SourceOnly(fullname, f), submodule_search_locations=sub)


def install():
    sys.dont_write_bytecode = True
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())


def digest(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()


class Rec:
    """What one task explored and found."""
    def __init__(self, scratch):
        self.evals = 0
        self.distinct = 0
        self.keys = set()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.fails = []
        self.notes = {}
        self.scratch = scratch
        self._n = 0

    def case(self, key, nontrivial=True, n=1):
        """One executed case; distinct cases are counted by key."""
        self.evals += n
        if nontrivial:
            self.keys.add(digest(key))
        if len(self.samples) < 2:
            self.samples.append(repr(key)[:300])

    def bulk(self, n, nontrivial=None, sample=None):
        """n pairwise different cases evaluated in one array call."""
        self.evals += int(n)
        self.distinct += int(n if nontrivial is None else nontrivial)
        if sample is not None and len(self.samples) < 2:
            self.samples.append(repr(sample)[:300])

    def state(self, canon):
        d = digest(canon)
        new = d not in self.states
        self.states.add(d)
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1, sample=None):
        self.traces += n
        if sample is not None and len(self.samples) < 2:
            self.samples.append(repr(sample)[:300])

    def note(self, key, value):
        self.notes[key] = self.notes.get(key, 0) + value

    def fail(self, fid, what, **detail):
        if len(self.fails) < MAXFAIL and not any(f['fid'] == fid for f in self.fails):
            self.fails.append({'fid': str(fid), 'what': str(what)[:1000],
                               'detail': {k: repr(v)[:1500] for k, v in detail.items()}})
        return False

    def ok(self, cond, fid, what, **detail):
        if not cond:
            self.fail(fid, what, **detail)
        return bool(cond)

    def close(self, fid, got, want, rtol=1e-9, atol=1e-9, what='', **detail):
        """got equals want elementwise (NaN equals NaN), same shape."""
        import numpy as np
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.shape != w.shape:
                return self.fail(fid, f'{what}: shape {g.shape} instead of {w.shape}', **detail)
            if g.dtype.kind not in 'fciub' or w.dtype.kind not in 'fciub':
                return self.fail(fid, f'{what}: dtype {g.dtype}', **detail)
            bad = ~(np.abs(g - w) <= atol + rtol*np.abs(w))
            bad &= ~(np.isnan(g) & np.isnan(w))
            bad &= ~(g == w)
        except Exception as err:
            return self.fail(fid, f'{what}: not comparable ({err!r})', got=got, want=want, **detail)
        if bad.any():
            i = np.unravel_index(np.argmax(bad), bad.shape) if bad.ndim else ()
            return self.fail(fid, f'{what}: at {tuple(int(k) for k in i)} got {g[i]!r}, expected {w[i]!r} '
                             f'({int(bad.sum())} of {bad.size} differ)', **detail)
        return True

    def raises(self, fid, exc, fn, *args, what='', **kw):
        """fn(*args, **kw) raises exc (a class or tuple)."""
        try:
            r = fn(*args, **kw)
        except exc:
            return True
        except Exception as err:
            return self.fail(fid, f'{what}: raised {type(err).__name__}: {err} instead of {exc}')
        return self.fail(fid, f'{what}: accepted, returned {r!r}'[:600])

    def tmp(self, name=''):
        self._n += 1
        d = os.path.join(self.scratch, f't{self._n}')
        os.makedirs(d)
        return os.path.join(d, name) if name else d

    def pack(self):
        return dict(evals=self.evals, distinct=self.distinct, keys=self.keys, states=self.states,
                    transitions=self.transitions, traces=self.traces, samples=self.samples,
                    fails=self.fails, notes=self.notes)


def _child(mod, fn, kwargs, scratch, wfd):
    import warnings
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    sys.stdout = open(1, 'w', closefd=False)
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    rec = Rec(scratch)
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    try:
        getattr(mod, fn)(rec, **kwargs)
    except MemoryError:
        os._exit(9)
    except BaseException as err:
        tb = traceback.format_exc()
        rec.fail(f'exception:{fn}:{type(err).__name__}', f'unexpected {type(err).__name__}: {err}', traceback=tb[-1400:])
    data = pickle.dumps(rec.pack())
    with os.fdopen(wfd, 'wb') as f:
        f.write(struct.pack('>Q', len(data)) + data)
        f.flush()
    os._exit(0)


def run_tasks(mod, tasks, limit, deadline, jobs=8):
    """Run the tasks, at most `jobs` at a time; yields (index, result or error string)."""
    root = tempfile.mkdtemp(prefix='verif-')
    running, queue, out = {}, list(enumerate(tasks)), {}
    try:
        while queue or running:
            while queue and len(running) < jobs:
                i, (fn, kw) = queue.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    try:
                        os.setpgid(0, 0)
                        _child(mod, fn, kw, os.path.join(root, f'task{i}'), w)
                    finally:
                        os._exit(7)
                os.close(w)
                running[r] = [i, pid, b'', time.time()]
            rs, _, _ = select.select(list(running), [], [], 0.5)
            now = time.time()
            for r in rs:
                e = running[r]
                chunk = os.read(r, 1 << 20)
                if chunk:
                    e[2] += chunk
                    continue
                os.close(r)
                del running[r]
                _, status = os.waitpid(e[1], 0)
                buf = e[2]
                if len(buf) >= 8 and len(buf) == 8 + struct.unpack('>Q', buf[:8])[0]:
                    out[e[0]] = pickle.loads(buf[8:])
                else:
                    out[e[0]] = f'task process ended abnormally (wait status {status})'
                shutil.rmtree(os.path.join(root, f'task{e[0]}'), ignore_errors=True)
            for r, e in list(running.items()):
                if now - e[3] > limit or now > deadline:
                    try:
                        os.killpg(e[1], signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    os.waitpid(e[1], 0)
                    os.close(r)
                    del running[r]
                    out[e[0]] = 'TIMEOUT' if now - e[3] > limit else 'DEADLINE'
            if now > deadline and queue:
                for i, _ in queue:
                    out[i] = 'DEADLINE'
                queue = []
    finally:
        for r, e in running.items():
            try:
                os.killpg(e[1], signal.SIGKILL)
            except Exception:
                pass
        shutil.rmtree(root, ignore_errors=True)
    return out


def known_findings(pid):
    known, path = {}, os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding:'):
                    parts = line.split(None, 3)
                    if parts[1] == f'property={pid}':
                        known[parts[2].split('=', 1)[1]] = parts[3]
    return known


def main(pid, tier, replay=None):
    t0 = time.time()
    os.environ['MPLBACKEND'] = 'Agg'
    install()
    sys.path.insert(0, VERIF)
    import warnings
    warnings.simplefilter('ignore')
    mod = importlib.import_module(f'checks.{pid}')
    import chaosmagpy
    assert os.path.abspath(chaosmagpy.__file__).startswith(os.path.abspath(REPO) + os.sep), chaosmagpy.__file__
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    if replay:
        with open(replay) as f:
            rp = json.load(f)
        tasks = [(rp['task']['fn'], rp['task']['kwargs'])]
    else:
        tasks = list(mod.tasks(tier))
        for fn, kw in tasks:   # replayable: JSON-able arguments only
            json.dumps(kw)
        k = seed % len(tasks)
        order = tasks[k:] + tasks[:k]  # the seed only changes the order of exploration
        order.sort(key=lambda t: -getattr(mod, 'WEIGHT', {}).get(t[0], 1))
        tasks = order

    quick = tier != 'thorough'
    limit = getattr(mod, 'LIMIT', 200 if quick else 3000)
    deadline = t0 + (780 if quick else 6*3600)
    jobs = min(8, os.cpu_count() or 8)
    out = run_tasks(mod, tasks, limit, deadline, jobs)

    merged, errors, fails = Rec(None), [], []
    for i, (fn, kw) in enumerate(tasks):
        r = out.get(i, 'missing')
        if isinstance(r, str):
            if r == 'TIMEOUT':
                fails.append((i, {'fid': f'nontermination:{fn}', 'what': f'task {fn} {kw} did not finish in {limit} s', 'detail': {}}))
            else:
                errors.append(f'{fn} {kw}: {r}')
            continue
        merged.evals += r['evals']
        merged.distinct += r['distinct']
        merged.keys |= r['keys']
        merged.states |= r['states']
        merged.transitions += r['transitions']
        merged.traces += r['traces']
        for k, v in r['notes'].items():
            merged.note(k, v)
        if len(merged.samples) < 6:
            merged.samples += r['samples'][:2]
        fails += [(i, f) for f in r['fails']]

    known = known_findings(pid)
    new, seen = [], {}
    for i, f in fails:
        if f['fid'] in known:
            seen[f['fid']] = known[f['fid']]
        else:
            new.append((i, f))
    for fid, what in sorted(seen.items()):
        print(f'KNOWN-FINDING: property={pid} {what}')

    paths = []
    if replay:
        hit = [f for _, f in new if f['fid'] == rp['failure']['fid']]
        for _, f in new:
            print('  ', f['fid'], '-', f['what'])
        print('reproduced' if hit else 'NOT reproduced', rp['failure']['fid'])
        return 1 if new else 0

    rdir = os.path.join(VERIF, 'replays')
    for k in range(MAXREPLAY):   # of earlier runs
        try:
            os.remove(os.path.join(rdir, f'{pid}-{k}.json'))
        except FileNotFoundError:
            pass
    for k, (i, f) in enumerate(new[:MAXREPLAY]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{pid}-{k}.json')
        with open(path, 'w') as fh:
            json.dump({'property': pid, 'tier': tier, 'task': {'fn': tasks[i][0], 'kwargs': tasks[i][1]},
                       'failure': f, 'how': f'./run.sh {pid} --replay {path}'}, fh, indent=1)
        paths.append(path)

    cov = {'samples': merged.samples[:6], 'exhaustive': not errors, 'tasks': len(tasks)}
    if mod.LEVEL == 'model_checking':
        cov.update(states=len(merged.states), transitions=merged.transitions,
                   traces_validated_against_impl=merged.traces)
        if merged.evals:
            cov.update(additional_input_cases=merged.evals)
    else:
        cov.update(evaluations=merged.evals, distinct_nontrivial=merged.distinct + len(merged.keys), rule=mod.RULE)
        if merged.states:
            cov.update(states=len(merged.states), transitions=merged.transitions)
    if mod.LEVEL == 'model_checking':
        cov['rule'] = mod.RULE
    cov.update(merged.notes)
    ev = {'property': pid, 'tier': 'quick' if quick else 'thorough', 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', f'.{pid}.tmp')
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', f'{pid}.json'))

    short = {k: v for k, v in cov.items() if k not in ('samples', 'rule')}
    print(f'{pid} {tier}: {short} wall={ev["wall_s"]}s')
    if new:
        for k, (i, f) in enumerate(new[:12]):
            print(f'   {f["fid"]}: {f["what"]}')
        for path in paths[:MAXREPLAY]:
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    if errors:
        for e in errors[:5]:
            print('ERROR', e)
        return 2
    if merged.evals + merged.transitions == 0:
        print('ERROR nothing explored')
        return 2
    return 0
