"""C18: interrupted or truncated model files are never taken for complete models."""
import itertools
import json
import os
import warnings
import numpy as np
from mc import ref, fixture, fault

PROPERTY, LEVEL = 'C18', 'fault_enumeration'
RULE = ('every number of bytes after which the disk is full (kernel file size limit) and every write call, flush and close of a save failing with an I/O error, with and without a torn write, '
        'for SHC, configuration, MAT and spectrum files; every prefix of several small SHC files (all byte positions, thus all line boundaries), every lost line and every block replaced by zero '
        'bytes, read through all loaders; every prefix of configuration files; every prefix of COV-OBS, gufm1, CALS7K and IGRF text files that lacks a number (IGRF: and does not end with a degree); every save repeated over existing shorter and longer files')
ASSUMPTIONS = ['a truncation inside or after the last number of the last line cannot be recognised in this format unless the number becomes unreadable',
               'an abort of the HDF5 library under a full disk counts as an error seen by the caller']
CASES = {'table': dict(nt=1, nmax=1), 'window': dict(nt=2, nmax=3, nmin=2), 'long': dict(nt=5, nmax=2), 'neg': dict(nt=3, nmax=1), 'ones': dict(nt=4, nmax=1, ones=True)}


def tasks(tier):
    deep = tier == 'thorough'
    out = [('prefix', dict(name=n)) for n in CASES] + [('model', dict(order=k)) for k in (1, 2, 4)] + [('full', dict(what=w, step=1 if w in ('shc', 'config') else 37 if deep else 331)) for w in ('shc', 'static', 'table', 'config', 'mat', 'base', 'npz')]
    out += [('calls', dict(what=w, torn=t)) for w in ('shc', 'static', 'table', 'config') for t in (False, True)]
    out += [('text', dict(kind=k)) for k in ('cov', 'gufm', 'cals', 'igrf')] + [('over', {})] + [('steps', dict(what=w)) for w in ('mat', 'base')]
    return out + [('config', {}), ('mat', dict(step=97 if deep else 997))]


def save(path, nt, nmax, nmin=None, ones=False, header='# h\n'):
    from chaosmagpy import data_utils as du
    c = ref.lcg(nt*nmax*(nmax+2), nt, -900, 900).reshape(nt, -1)
    if ones:        # integers that look like degrees and orders
        c = np.ones_like(c)
    du.save_shcfile(np.arange(nt)*365.25 - 400, c, order=2 if nt > 1 else 1, filepath=path, nmin=nmin, header=header)
    return open(path, 'rb').read()


def loaders():
    from chaosmagpy import data_utils as du
    from chaosmagpy.chaos import BaseModel, CHAOS, load_CHAOS_shcfile
    return (du.load_shcfile, BaseModel.from_shc, CHAOS.from_shc, load_CHAOS_shcfile)


def refused(rec, fid, path, what):
    for f in loaders():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                x = f(path)
            except Exception:
                continue
            rec.fail(f'{fid}:{f.__qualname__}', f'{f.__qualname__} accepts a file {what}: {str(x)[:100]}')
            break
    rec.case(fid)


def damage(rec, fid, data):
    """All prefixes, lost lines and zero blocks of an SHC file."""
    path = rec.tmp('cut.shc')
    last = len(data.rstrip()) - len(data.split()[-1])     # start of the last number
    for n in range(len(data)):
        if n > last:
            continue
        open(path, 'wb').write(data[:n])
        refused(rec, f'{fid}:cut{n}', path, f'cut to {n} of {len(data)} bytes ({data[max(0, n-20):n]!r})')
    lines = data.splitlines(keepends=True)
    for i, x in enumerate(lines):
        if x.strip().startswith(b'#'):
            continue
        open(path, 'wb').write(b''.join(lines[:i] + lines[i+1:]))
        refused(rec, f'{fid}:lost{i}', path, f'without line {x!r}')
    first = next(i for i, x in enumerate(lines) if not x.strip().startswith(b'#'))
    start = sum(map(len, lines[:first]))
    for size in (16, 64):
        for n in range(start, last, size):
            open(path, 'wb').write((data[:n] + bytes(min(size, len(data)-n)) + data[n+size:])[:len(data)])
            refused(rec, f'{fid}:zero{size}:{n}', path, f'with zero bytes from {n}')
    body = [i for i, x in enumerate(lines) if not x.strip().startswith(b'#')]
    for i in body[2:]:
        for k in (1, 2, len(body) - 2):     # rows that the parameter line knows nothing about
            open(path, 'wb').write(b''.join(lines[:i+1] + [lines[i]]*k + lines[i+1:]))
            refused(rec, f'{fid}:extra{i}:{k}', path, f'with line {lines[i]!r} {k+1} times')
    par = lines[first].split()
    for i, d in itertools.product(range(3), (-1, 1, 2)):      # degrees and number of times that the table does not agree with
        if int(par[i]) + d > 0:
            p = par[:i] + [str(int(par[i]) + d).encode()] + par[i+1:]
            open(path, 'wb').write(b''.join(lines[:first] + [b' '.join(p) + b'\n'] + lines[first+1:]))
            refused(rec, f'{fid}:par{i}:{d}', path, f'with the parameter line {p}')
    open(path, 'wb').write(data)
    for f in loaders():
        f(path)
    open(path, 'wb').write(data.rstrip())     # only the final line end is missing
    loaders()[0](path)


def prefix(rec, name):
    kw = dict(CASES[name])
    damage(rec, name, save(rec.tmp('a.shc'), **kw))
    if name == 'window':
        damage(rec, f'{name}:bare', save(rec.tmp('a.shc'), header='', **kw))


def model(rec, order):
    from chaosmagpy.chaos import CHAOS
    k = fixture.kwargs(('tdep', 'static'), order=order, nt=1, ns=2)
    m = CHAOS(name='x', **k)
    for part in ('tdep', 'static'):
        path = rec.tmp('a.shc')
        m.save_shcfile(path, model=part)
        damage(rec, f'{order}:{part}', open(path, 'rb').read())


def textfile(kind, nmax, n):
    """One file of the given format: n spline functions or epochs."""
    dim = nmax*(nmax+2)
    years = 1900. + 2.5*np.arange(n+4)
    vals = ' '.join(f'{x:.3f}' for x in ref.lcg(n*dim, n + nmax, -30000, 30000))
    kn = ' '.join(f'{x:.1f}' for x in years)
    if kind == 'cov':
        return f'# header\n{nmax} {n+4} 4 {kn}\n' + '\n'.join(vals.split(' ')) + '\n'
    if kind == 'gufm':
        return f'header\n{nmax} {n} {kn}\n{vals}\n'
    if kind == 'cals':
        return f'1900.0 1950.0 4 0 {nmax} 1 {n}\n{kn}\n' + vals.replace('.', 'D+00 ').replace('D+00 ', '.') + '\n'
    nms = [(a, d, m) for d in range(1, nmax+1) for m in range(d+1) for a in ('g', 'h')[:2 if m else 1]]
    tab = ref.lcg(dim*(n+1), n, -30000, 30000).reshape(dim, n+1)
    return '# IGRF\nc/s deg ord ' + 'IGRF '*n + 'SV\ng/h n m ' + ' '.join(f'{1900+5*i:.1f}' for i in range(n)) + ' 2020-25\n' + \
        ''.join(' '.join([a, str(d), str(m)] + [f'{x:.1f}' for x in v]) + '\n' for (a, d, m), v in zip(nms, tab))


def text(rec, kind):
    """Every prefix of the other text formats that lacks at least one number."""
    from chaosmagpy import chaos
    load = {'cov': chaos.load_CovObs_txtfile, 'gufm': chaos.load_gufm1_txtfile, 'cals': chaos.load_CALS7K_txtfile, 'igrf': chaos.load_IGRF_txtfile}[kind]
    for nmax in (1, 2, 3):
        for n in (1, 2, 3, 5):
            data = textfile(kind, nmax, n)
            path = rec.tmp('model.txt')
            open(path, 'w').write(data)
            load(path)
            last = len(data.rstrip()) - len(data.split()[-1])
            for k in range(last + 1):
                rows = [x.split() for x in data[:k].splitlines()[3:]]
                rows = rows[:-1] if rows and len(rows[-1]) < 4 else rows
                if kind == 'igrf' and rows and rows[-1][1:2] == rows[-1][2:3] and (rows[-1][0] == 'h') and len(rows[-1]) >= n+4:
                    continue      # ends with a degree: looks like a smaller table
                open(path, 'w').write(data[:k])
                rec.case((kind, nmax, n, k))
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    try:
                        x = load(path)
                    except Exception:
                        continue
                if not rec.fail(f'text:{kind}:{nmax}:{n}:{k}', f'{load.__name__} accepts a file cut to {k} of {len(data)} bytes ({data[max(0, k-30):k]!r}): {np.shape(x.coeffs)}'):
                    break


def body(data):
    """Lines without comments (which hold the time of the save)."""
    return [x for x in data.splitlines(keepends=True) if not x.startswith(b'#')]


def over(rec):
    """Saving over a file of any other length leaves the complete new file."""
    kinds = [dict(nt=1, nmax=1), dict(nt=5, nmax=2), dict(nt=2, nmax=3, nmin=2), dict(nt=3, nmax=1), dict(nt=12, nmax=3)]
    for a in kinds:
        want = save(rec.tmp('a.shc'), **a)
        for junk in [save(rec.tmp('a.shc'), **b) for b in kinds] + [b'', b'x', b'1 2 3\n'*4000]:
            path = rec.tmp('a.shc')
            open(path, 'wb').write(junk)
            rec.case((a, len(junk)))
            rec.ok(body(save(path, **a)) == body(want), f'over:{a}:{len(junk)}', f'saving {a} over a file of {len(junk)} bytes leaves something else')
    for name in ('shc', 'static', 'config', 'mat', 'npz'):
        path, go = job(rec, name)
        fault.limited(None, go)
        size = os.path.getsize(path)
        first = open(path, 'rb').read()
        for junk in (b'', b'{}', b'7'*(3*size)):
            open(path, 'wb').write(junk)
            r = fault.limited(None, go)
            rec.case((name, len(junk)))
            rec.ok(r['err'] is None and complete(name, path, size) and os.path.getsize(path) < 2*size and (name not in ('shc', 'static', 'config') or body(open(path, 'rb').read()) == body(first)), f'over:{name}:{len(junk)}', f'{r} over a file of {len(junk)} bytes')


def job(rec, what):
    """(name of the file, function that saves it)."""
    from chaosmagpy import basicConfig, coordinate_utils as cu, data_utils as du
    m = fixture.model(nt=2, ns=3)
    path = rec.tmp({'mat': 'a.mat', 'base': 'a.mat', 'config': 'a.json', 'npz': 'a.npz'}.get(what, 'a.shc'))
    return path, {'shc': lambda: m.save_shcfile(path), 'static': lambda: m.save_shcfile(path, model='static'), 'config': lambda: basicConfig.save(path),
                  'mat': lambda: m.save_matfile(path), 'base': lambda: m.model_tdep.save_matfile(path),
                  'table': lambda: du.save_shcfile(np.arange(40)*30., ref.lcg(40*24, 1, -9, 9).reshape(40, 24), order=2, filepath=path),
                  'npz': lambda: cu.rotate_gauss_fft(2, 2, qfunc=lambda f, k: 0.3*np.ones(f.shape), step=1., N=12, filter=4, save_to=path, reference='gsm')}[what]


def complete(what, path, want):
    """Does the file hold everything?  (The size of MAT-files varies: the names of references are random.)"""
    from chaosmagpy.chaos import CHAOS
    from chaosmagpy.data_utils import load_matfile
    if not os.path.exists(path):
        return False
    try:
        m = fixture.model(nt=2, ns=3)
        if what == 'mat':
            from checks.C15 import attributes
            x = attributes(CHAOS.from_mat(path), list(m.model_euler))
            return fixture.snapshot(x) == fixture.snapshot(attributes(m))
        if what == 'base':
            pp = load_matfile(path)['pp']
            return np.array_equal(np.ravel(pp['coefs'].T), np.ravel(m.model_tdep.coeffs)) and np.array_equal(pp['breaks'], m.model_tdep.breaks)
        if what == 'npz':
            with np.load(path) as f:
                return len([f[k] for k in f.files]) >= 6
    except Exception:
        return False
    return os.path.getsize(path) >= want


def full(rec, what, step):
    """The disk is full after n bytes."""
    path, go = job(rec, what)
    r = fault.limited(None, go)
    size = os.path.getsize(path)
    rec.ok(r['err'] is None, f'full:{what}:none', f'{r}')
    for n in sorted({*range(0, size, step), *range(max(0, size-40), size, 3), size-1, 0}):
        if os.path.exists(path):
            os.remove(path)
        r = fault.limited(n, go)
        rec.case(f'full:{what}:{n}')
        if r['err'] is None and complete(what, path, size):
            continue
        rec.ok(r['err'] is not None, f'full:{what}:{n}', f'no error though the disk was full after {n} of {size} bytes')
        rec.ok(os.path.basename(path) not in r['out'], f'full:{what}:{n}:msg', f'success message {r["out"]!r} after {n} of {size} bytes')
        if what in ('shc', 'static') and n < size-20 and n % 7 == 0 and os.path.exists(path):
            refused(rec, f'full:{what}:{n}:load', path, f'left by a save that failed after {n} of {size} bytes')
    # afterwards, with space, everything works again
    if what == 'base':      # adds to what is there
        os.remove(path)
    r = fault.limited(None, go)
    rec.ok(r['err'] is None and complete(what, path, size), f'full:{what}:after', f'{r}')


def steps(rec, what):
    """A single step of writing an HDF5 or MAT file fails, all others succeed."""
    import h5py
    import hdf5storage
    path, go = job(rec, what)
    where = [(hdf5storage, 'write'), (h5py.File, '__init__'), (h5py.Group, 'create_dataset'), (h5py.Group, 'create_group'), (h5py.Dataset, '__setitem__')]
    total = 0
    for owner, name in where:
        real = getattr(owner, name)
        for exc in (OSError(28, 'No space left on device'), MemoryError()):
            k = 0
            while k < 150:
                k += 1
                count = [0]

                def step(*a, **kw):
                    count[0] += 1
                    if count[0] == k:
                        raise exc
                    return real(*a, **kw)
                if os.path.exists(path):
                    os.remove(path)
                setattr(owner, name, step)
                try:
                    r = fault.outcome(go)
                finally:
                    setattr(owner, name, real)
                if count[0] < k:
                    break
                total += 1
                fid = f'steps:{what}:{name}:{k}:{type(exc).__name__}'
                rec.case(fid)
                if r['err'] is None and complete(what, path, 0):
                    continue        # done in another way
                rec.ok(r['err'] is not None, fid, 'failing step causes no error and the file is not complete')
                rec.ok(os.path.basename(path) not in r['out'], f'{fid}:msg', 'success message after a failing step')
    rec.ok(total > 3, f'steps:{what}', 'no step could be made to fail')


def calls(rec, what, torn):
    """The k-th of all opening, writing, flushing and closing steps fails."""
    path, go = job(rec, what)
    fault.limited(None, go)
    size = os.path.getsize(path)
    k = 0
    while True:
        k += 1
        if os.path.exists(path):
            os.remove(path)
        plan = fault.Plan(k, torn)
        with fault.faulty_open(path, plan):
            r = fault.outcome(go)
        fid = f'calls:{what}:{torn}:{k}'
        if plan.fired is None:
            rec.ok(r['err'] is None, f'{fid}:ok', str(r))
            break
        rec.case(fid)
        if r['err'] is None and what != 'table' and complete(what, path, size):
            continue        # done in another way
        rec.ok(r['err'] is not None, fid, f'failing {plan.fired} (step {k}) causes no error')
        rec.ok(os.path.basename(path) not in r['out'], f'{fid}:msg', f'success message after failing {plan.fired} (step {k})')
    rec.note(f'steps of {what}', k-1)


def config(rec):
    """Every prefix of a configuration file is refused and changes nothing."""
    from chaosmagpy import basicConfig
    path = rec.tmp('c.json')
    fixture.use_rc(rec.tmp('rc.h5'))
    basicConfig['params.r_surf'] = 6377.5
    basicConfig['params.dipole'] = [-29000., -1500.5, 4700.]
    basicConfig.save(path)
    data = open(path, 'rb').read()
    basicConfig['params.r_surf'] = 6371.2
    before = fixture.snapshot(dict(basicConfig))
    for n in range(len(data.rstrip())):
        open(path, 'wb').write(data[:n])
        try:
            basicConfig.load(path)
            rec.fail(f'config:{n}', f'configuration file cut to {n} of {len(data)} bytes accepted')
        except Exception:
            pass
        rec.ok(fixture.snapshot(dict(basicConfig)) == before, f'config:{n}:state', 'refused configuration file changed the configuration')
        rec.case(f'config:{n}')
    open(path, 'wb').write(data)
    basicConfig.load(path)
    rec.ok(basicConfig['params.r_surf'] == 6377.5, 'config:all', 'complete file')
    assert json.loads(data)


def mat(rec, step):
    """Prefixes of a MAT-file."""
    from chaosmagpy.chaos import CHAOS
    m = fixture.model(nt=1, ns=2)
    src, path = rec.tmp('a.mat'), rec.tmp('b.mat')
    m.save_matfile(src)
    data = open(src, 'rb').read()
    for n in sorted({*range(0, len(data), step), len(data)-1}):
        open(path, 'wb').write(data[:n])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                x = CHAOS.from_mat(path)
                rec.fail(f'mat:{n}', f'MAT-file cut to {n} of {len(data)} bytes accepted: {x}')
            except Exception:
                pass
        rec.case(f'mat:{n}')
