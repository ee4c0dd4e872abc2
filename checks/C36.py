"""C36: evaluations neither depend on process-wide settings nor disturb them."""
import contextlib
import decimal
import gc
import io
import itertools
import locale
import os
import pickle
import random
import signal
import subprocess
import sys
import threading
import time
import warnings
import numpy as np
from mc import alphabet, fixture

PROPERTY, LEVEL = 'C36', 'exploration'
RULE = ('every operation of the alphabet (about 310: evaluating, converting, loading, saving, drawing, failing) under every process-wide setting of a list (print options, floating-point error handling, '
        'warning filters, random state, working directory, time zone, decimal precision, pandas options, open figures and figure settings, garbage collection, open files) and in processes started '
        'with other flags and environments (optimised, hash seeds, locale, warnings as errors); the answer is compared with that under the standard settings, and after every operation every setting is '
        'compared with its value before; a case is (operation, setting)')
ASSUMPTIONS = ['drawings are compared for the settings that are not about drawing', 'checks by assert statements vanish in optimised processes: failing operations are compared in the others only']


def printing(**kw):
    return lambda rec: np.set_printoptions(**kw)


def zone(name):
    def f(rec):
        os.environ['TZ'] = name
        time.tzset()
    return f


def folder(mode):
    def f(rec):
        d = rec.tmp('cwd')
        os.makedirs(d, exist_ok=True)
        os.chmod(d, mode)
        os.chdir(d)
    return f


def option(*kv):
    def f(rec):
        import pandas as pd
        pd.set_option(*kv)
    return f


def rc(**kw):
    def f(rec):
        import matplotlib
        matplotlib.rcParams.update({k.replace('__', '.'): v for k, v in kw.items()})
    return f


def figures(rec):
    import matplotlib.pyplot as plt
    for i in range(3):
        fig, ax = plt.subplots(2, 2)
        ax[0, 0].plot([1, 2], [3, i])
    plt.figure(1)


SETTINGS = {
    'precision': printing(precision=2), 'fixed': printing(precision=3, floatmode='fixed', suppress=True), 'short': printing(threshold=2, edgeitems=1, linewidth=20), 'legacy': printing(legacy='1.13'), 'sign': printing(sign='+', nanstr='?'),
    'ignore': lambda rec: np.seterr(all='ignore'), 'warn': lambda rec: np.seterr(all='warn'), 'call': lambda rec: np.seterr(all='call') and np.seterrcall(lambda *a: None), 'bufsize': lambda rec: np.setbufsize(16),
    'always': lambda rec: warnings.simplefilter('always'), 'once': lambda rec: warnings.simplefilter('once'), 'deprecated': lambda rec: [warnings.filterwarnings('error', category=c, module='chaosmagpy') for c in (DeprecationWarning, PendingDeprecationWarning, FutureWarning, ResourceWarning)],
    'seed': lambda rec: (random.seed(5), np.random.seed(5)), 'zone1': zone('Pacific/Kiritimati'), 'zone2': zone('<-12>12'), 'zone3': zone('EST5EDT'), 'folder': folder(0o755), 'readonly': folder(0o555), 'deleted': folder(0),
    'decimal': lambda rec: setattr(decimal.getcontext(), 'prec', 3), 'cow': option('mode.copy_on_write', True), 'display': option('display.precision', 1),
    'figures': figures, 'cycle': rc(lines__linewidth=7., axes__grid=True, font__size=20.), 'nogc': lambda rec: gc.disable(), 'gc': lambda rec: gc.set_threshold(1, 1, 1), 'switch': lambda rec: sys.setswitchinterval(1e-6),
    'umask': lambda rec: os.umask(0o077), 'trace': lambda rec: sys.settrace(lambda *a: None), 'recursion': lambda rec: sys.setrecursionlimit(400), 'thread': None, 'stdout': None}
DRAW = ('precision', 'warn', 'folder', 'zone1', 'seed', 'thread', 'stdout', 'cow', 'short')
TIMING = False
PROCESS = {
    'plain': ([], {}), 'hash1': ([], dict(PYTHONHASHSEED='1')), 'hash2': ([], dict(PYTHONHASHSEED='2')), 'hash3': ([], dict(PYTHONHASHSEED='12345')), 'O': (['-O'], {}), 'OO': (['-OO'], {}),
    'posix': ([], dict(LC_ALL='POSIX', LANG='POSIX')), 'noutf8': (['-X', 'utf8=0'], dict(LC_ALL='C', PYTHONCOERCECLOCALE='0')), 'dev': (['-X', 'dev'], {}), 'nohome': ([], dict(HOME='/dev/null/home', USER='nobody', XDG_CACHE_HOME='/dev/null/cache', XDG_CONFIG_HOME='/dev/null/config')),
    'threads': ([], dict(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')), 'columns': ([], dict(COLUMNS='20', LINES='3', TERM='dumb')), 'zone': ([], dict(TZ='Asia/Kathmandu'))}


def tasks(tier):
    out = [('setting', dict(names=list(SETTINGS)[i::10])) for i in range(10)] + [('process', dict(name=n)) for n in PROCESS if n != 'plain'] + [('disturbs', dict(part=i, of=6)) for i in range(6)]
    if tier == 'thorough':
        out += [('both', dict(a=a, b=b)) for a, b in itertools.combinations([n for n in SETTINGS if SETTINGS[n]], 2)]
    return out


def quiet(f, W):
    with contextlib.redirect_stdout(io.StringIO()):
        return alphabet.answer(f, W)


def batch(d, kinds, before=None, run=quiet):
    """Answers of all operations in one fresh world, after some setting."""
    def go():
        import matplotlib
        matplotlib.use('Agg')
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            w = alphabet.World(d)
            ops = alphabet.operations(w)
        if before:
            before()
        return {n: run(f, w) for n, (kind, f) in ops.items() if kind in kinds}
    return alphabet.isolated(go)


def inthread(f, W):
    out = []
    x = threading.Thread(target=lambda: out.append(quiet(f, W)))
    x.start()
    x.join()
    return out[0]


def nostdout(f, W):
    keep = sys.stdout
    sys.stdout = None       # as in programs without a console
    try:
        return alphabet.answer(f, W)
    finally:
        sys.stdout = keep


def compare(rec, fid, base, got, what):
    if not rec.ok(isinstance(got, dict) and isinstance(base, dict), fid, f'{what}: {got if isinstance(base, dict) else base}'):
        return
    rec.ok(len(got) > 150 and set(got) == set(base), fid, f'{len(got)} operations')
    for n in base:
        rec.case((fid, n))
        rec.ok(alphabet.same(got[n], base[n], 1e-9), f'{fid}:{n}', f'{what}: {n} gives {show(got[n])} instead of {show(base[n])}')


def show(x):
    from checks import C34
    try:
        return C34.show(x)
    except Exception:
        return str(x)[:150]


def setting(rec, names):
    d = rec.tmp('w')
    base = batch(d, 'eshfpP')
    for name in names:
        kinds = 'eshf' + ('' if name in ('figures', 'cycle', 'legacy') else 'pP' if name in DRAW else 'p')
        run = {'thread': inthread, 'stdout': nostdout}.get(name, quiet)
        t = time.time()
        got = batch(d, kinds, SETTINGS[name] and (lambda: SETTINGS[name](rec)), run)
        rec.note(f'setting {name}', round(time.time() - t, 1)) if TIMING else None
        compare(rec, f'setting:{name}', {n: base[n] for n in base if n in got} if isinstance(base, dict) and isinstance(got, dict) else base, got, f'setting "{name}"')


def both(rec, a, b):
    d = rec.tmp('w')
    base = batch(d, 'eshf')
    compare(rec, f'both:{a}:{b}', base, batch(d, 'eshf', lambda: (SETTINGS[a](rec), SETTINGS[b](rec))), f'settings "{a}" and "{b}"')


CHILD = '''import os, pickle, sys
sys.path.insert(0, sys.argv[1])
from mc import core
core.install()
from checks import C36
with open(sys.argv[3], 'wb') as f:
    pickle.dump(C36.batch(sys.argv[2], sys.argv[4]), f)
'''


def process(rec, name):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    res, d = [], rec.tmp('w')
    kinds = 'eshpP' + ('' if name in ('O', 'OO') else 'f')
    for i, n in enumerate(('plain', name)):
        flags, env = PROCESS[n]
        out = rec.tmp(f'o{i}')
        p = subprocess.run([sys.executable, '-B', *flags, '-c', CHILD, here, d, out, kinds], env={**os.environ, **env}, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=150)
        if not rec.ok(p.returncode == 0 and os.path.exists(out), f'process:{name}', f'process "{n}": {p.stderr.decode()[-300:]}'):
            return
        res.append(pickle.load(open(out, 'rb')))
    compare(rec, f'process:{name}', *res, f'process "{name}"')


def observe():
    """Everything that belongs to the process and not to the caller's model."""
    import h5py
    import matplotlib
    import matplotlib.pyplot as plt
    import pandas as pd
    Gcf = plt._pylab_helpers.Gcf
    fds = []
    for x in os.listdir('/proc/self/fd'):
        with contextlib.suppress(OSError):
            fds.append((x, os.readlink(f'/proc/self/fd/{x}')))
    fds = sorted(y for y in fds if not y[1].startswith('/proc/') and 'mpl-data' not in y[1])
    keep = np.random.get_state()
    return dict(printing=sorted(map(str, np.get_printoptions().items())), errors=np.geterr(), errcall=np.geterrcall(), bufsize=np.getbufsize(), filters=[str(x) for x in warnings.filters], showwarning=warnings.showwarning,
                random=random.getstate(), nprandom=(keep[1].tobytes(), keep[2:]), folder=os.getcwd(), environment=dict(os.environ), locale=locale.setlocale(locale.LC_ALL), zone=time.tzname,
                decimal=str(decimal.getcontext()), copy_on_write=pd.get_option('mode.copy_on_write'), h5=(h5py.get_config().track_order, h5py.get_config().complex_names), rc={k: str(v) for k, v in matplotlib.rcParams.items()},
                backend=matplotlib.get_backend(), colormaps=sorted(matplotlib.colormaps), interactive=plt.isinteractive(), figures=[(i, [(len(ax.lines), len(ax.collections), ax.get_title(), ax.get_xlim()) for ax in Gcf.figs[i].canvas.figure.axes]) for i in (1, 2)],
                gc=(gc.isenabled(), gc.get_threshold()), switch=sys.getswitchinterval(), recursion=sys.getrecursionlimit(), stdout=sys.stdout, stderr=sys.stderr, path=list(sys.path), hooks=(sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile()),
                threads=threading.active_count(), files=fds, signals=[signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD)])


def disturbs(rec, part, of):
    import matplotlib
    import matplotlib.pyplot as plt
    matplotlib.use('Agg')
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    with contextlib.redirect_stdout(io.StringIO()):
        W = alphabet.World(rec.tmp('w'))
        ops = list(alphabet.operations(W).items())[part::of]
        close = plt.close
        close('all')
        figs = [plt.figure(i).subplots(1, 2) for i in (1, 2)]       # the caller's own figures
        figs[0][1].plot([1, 2], [3, 5])
        plt.close = lambda *a: None
        for again in (0, 1):        # at first use, and with settings of the caller
            for n, (kind, f) in ops:
                if again:
                    np.seterr(all='call', over='warn')
                    np.seterrcall(max)
                    np.set_printoptions(precision=5)
                random.seed(3), np.random.seed(3)
                plt.figure(1)
                gc.collect()
                a = observe()
                alphabet.answer(f, W)
                gc.collect()
                for i in plt.get_fignums():
                    if i > 2:
                        close(i)
                b = observe()
                rec.case((n, again))
                for k in a:
                    if k == 'random' and kind == 's':
                        continue        # drawn by hdf5storage for the names of references
                    rec.ok(a[k] == b[k], f'disturbs:{n}:{k}', f'{n} changes {k} of the process: {diff(a[k], b[k])}')
    assert fixture


def diff(a, b):
    if isinstance(a, dict):
        return {k: (a.get(k), b.get(k)) for k in {*a, *b} if a.get(k) != b.get(k)}
    if isinstance(a, list) and all(isinstance(x, tuple) for x in a + b):
        return [x for x in a if x not in b], [x for x in b if x not in a]
    return str(a)[:100], str(b)[:100]
