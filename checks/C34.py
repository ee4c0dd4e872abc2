"""C34: answers depend on the values of array arguments, not on how the arrays are stored."""
import io
import warnings
import contextlib
import numpy as np
from mc import alphabet, fixture

PROPERTY, LEVEL = 'C34', 'exploration'
RULE = ('every evaluating, converting and saving operation of the alphabet (about 300) for every way of storing its array arguments (contiguous, column-major, strided, reversed, '
        'unaligned, other byte order, read-only, subclass, integers of 1 to 8 bytes, fields of packed records), changed for all arguments at once and for every argument alone; '
        'the answer is compared with that for plain double-precision arrays; a case is (operation, storage, argument)')
ASSUMPTIONS = ['single precision inputs are not covered: their rounding is the caller\'s choice']


class Sub(np.ndarray):
    pass


def strided(x):
    big = np.full(tuple(2*n + 1 for n in x.shape), -1e9, x.dtype)
    ix = tuple(slice(1, None, 2) for _ in x.shape)
    big[ix] = x
    return big[ix]


def unaligned(x):
    b = np.zeros(x.nbytes + 1, np.uint8)
    y = b[1:].view(x.dtype).reshape(x.shape)
    y[...] = x
    return y


def readonly(x):
    y = x.copy()
    y.flags.writeable = False
    return y


def reverse(x):
    ix = tuple(slice(None, None, -1) for _ in x.shape)
    return x[ix].copy()[ix]


def spread(x):
    """A view that repeats memory only where the values do."""
    if x.ndim == 1:
        return np.broadcast_to(x, (3,) + x.shape)[1]
    return np.moveaxis(np.moveaxis(x, 0, -1).copy(), -1, 0)


STORE = {'fortran': np.asfortranarray, 'strided': strided, 'reverse': reverse, 'unaligned': unaligned, 'swapped': lambda x: x.astype(x.dtype.newbyteorder('>')),
         'readonly': readonly, 'view': spread, 'subclass': lambda x: x.copy().view(Sub)}
WHOLE = {'int64': np.int64, 'int32': np.int32, 'swapped': '>i4', 'swapped8': '>i8'}


def tasks(tier):
    deep = tier == 'thorough'
    out = [('store', dict(kind=k)) for k in STORE] + [('whole', dict(kind=k)) for k in WHOLE] + [('alone', dict(kind=k)) for k in STORE]
    out += [('ints', dict(part=i, of=4)) for i in range(4)] + [('record', {})] + [('models', dict(kind=k, deep=deep)) for k in (*STORE, *WHOLE)]
    if deep:
        out += [('pairs', dict(a=a, b=b)) for a in STORE for b in STORE if a != b]
    return out


class Log(dict):
    """Remembers which arrays an operation asks for."""

    def __init__(self, *a):
        super().__init__(*a)
        self.used = set()

    def __getitem__(self, k):
        self.used.add(k)
        return super().__getitem__(k)


ALWAYS = ('t', 'r', 'th', 'ph', 'tq')


def use(W, arrays):
    """Operations of the world on these arrays."""
    from checks import C13
    W.a = Log(arrays)
    C13.T, C13.R, C13.TH, C13.PH = (arrays[k] for k in ('t', 'r', 'th', 'ph'))
    q = alphabet.operations(W)
    return {n: f for n, (kind, f) in q.items() if kind in ('e', 's', 'h')}


def run(f, W):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return alphabet.answer(f, W)


def values(x):
    """The numbers of a snapshot, whatever type they are stored in."""
    if isinstance(x, tuple):
        if len(x) == 4 and x[0] == 'a' and not isinstance(x[3], str):
            v = np.frombuffer(x[3], x[2])
            return ('a', x[1], '<f8' if v.dtype.kind in 'iufb' else v.dtype.str.lstrip('<>=|'), (v.astype('<f8') if v.dtype.kind in 'iufb' else v).tobytes())
        return tuple(values(y) for y in x)
    return x


def whole(rec, kind):
    W = alphabet.World(rec.tmp('w'))
    plain = {}
    for k, v in W.a.items():
        plain[k] = np.round(v.real) if k not in ('sp',) else v
    for k, v in dict(sig=[2., 1., 3.], b1=[1., 0., 0.], b2=[0., 1., 0.], b3=[0., 0., 1.], fr=[0., 1., 2.], per=[10000., 20000., 30000.], dip=[-29405., -1451., 4653.],
                     knots=[0., 0., 0., 0., 1., 3., 4., 4., 4., 4.], tk=[0., 1., 2., 3., 4.], brk=[0., 1., 3., 4.], z=[2., -1., 1.]).items():
        plain[k] = np.array(v)
    compare(rec, W, plain, {k: (v if k == 'sp' else v.astype(WHOLE[kind])) for k, v in plain.items()}, f'whole:{kind}', 'integer arrays')
    q = use(W, plain)
    single(rec, W, plain, lambda v: v if v.dtype.kind == 'c' else v.astype(WHOLE[kind]), f'whole1:{kind}')
    assert q


def compare(rec, W, plain, other, fid, what):
    base = {n: run(f, W) for n, f in use(W, plain).items()}
    keep = {k: v.copy() for k, v in other.items()}
    for n, f in use(W, other).items():
        got = run(f, W)
        rec.case((fid, n))
        rec.ok(alphabet.same(values(got), values(base[n]), 1e-9), f'{fid}:{n}', f'{what}: {n} gives {show(got)} instead of {show(base[n])}')
    for k, v in keep.items():
        rec.ok(np.array_equal(v, other[k]), f'{fid}:mut:{k}', f'{what}: argument {k} modified')


def show(x):
    if x[0] == 'error':
        return str(x[1:])
    def nums(y):
        if isinstance(y, tuple) and len(y) == 4 and y[0] == 'a' and not isinstance(y[3], str):
            return str(np.frombuffer(y[3], y[2])[:4])
        return '(' + ','.join(nums(z) for z in y[:4]) + ')' if isinstance(y, tuple) else str(y)[:30]
    return nums(x[1])[:150]


def store(rec, kind):
    W = alphabet.World(rec.tmp('w'))
    plain = {k: v.copy() for k, v in W.a.items()}
    compare(rec, W, plain, {k: STORE[kind](v) for k, v in plain.items()}, f'store:{kind}', kind)


def alone(rec, kind):
    W = alphabet.World(rec.tmp('w'))
    single(rec, W, {k: v.copy() for k, v in W.a.items()}, STORE[kind], f'alone:{kind}')


def single(rec, W, plain, conv, fid):
    """One argument at a time."""
    base, need = {}, {}
    for n, f in use(W, plain).items():
        W.a.used.clear()
        base[n] = run(f, W)
        need[n] = set(W.a.used)
    for k in plain:
        ops = use(W, {**plain, k: conv(plain[k])})
        for n, f in ops.items():
            if k in need[n] or k in ALWAYS:
                got = run(f, W)
                rec.case((fid, k, n))
                rec.ok(alphabet.same(values(got), values(base[n]), 1e-9), f'{fid}:{k}:{n}', f'{k} stored otherwise: {n} gives {show(got)} instead of {show(base[n])}')
    assert fixture


def field(x):
    """Column of packed records, as read from binary data files."""
    b = np.zeros(x.shape, dtype=[('flag', 'u1'), ('x', x.dtype), ('y', 'f4')])
    b['x'] = x
    return b['x']


INT = ('i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', '>i2', '>i4')


def ints(rec, part, of):
    """Integers of any width, with values up to the largest that are representable."""
    from checks import C35
    for name, (f, pools, tail) in list(C35.functions(rec).items())[part::of]:
        for dt in INT:
            lim = np.iinfo(dt)
            for shift in (0, 1, 2):
                args = []
                for j, p in enumerate(pools):
                    p = np.round(np.array(p, float))
                    if p[0] == 0. and len(p) == 7 and p[-1] == 180.:      # colatitudes; not at the poles where longitudes are arbitrary
                        p = np.array([1., 37., 90., 120., 127., 142., 178.])
                    elif 3485. in p:
                        p = np.array([100., 3485., 6371., 30000., 46341., 65000., 127.])
                    elif p[0] == -10. and p[-1] == 90.:
                        p = np.array([-10., 100., 127., 181., 30000., 46341., 65535.])
                    elif p.min() >= 0 and p[-1] in (179., 180.):
                        p = np.array([1., 12., 37., 90., 127., 170., 179.])
                    p = p[(p >= max(lim.min, -2.**62)) & (p <= lim.max)]
                    if p.size:
                        args.append(np.array([p[(i*(2*j+1) + shift) % p.size] for i in range(7)]))
                if len(args) < len(pools):
                    continue
                want, said = C35.warned(f, *args)
                got, says = C35.warned(f, *[x.astype(dt) for x in args])
                rec.case((name, dt, shift))
                fid = f'ints:{name}:{dt}:{shift}'
                if want is None or got is None:
                    rec.ok(got is None and want is None, fid, f'{name}: {says} for {dt}, {said} for floating point')
                    continue
                for g, w in zip(got, want):
                    if w.dtype.kind in 'Mb':
                        rec.ok(np.array_equal(g, w), fid, f'{name} of integers ({dt}): {g.ravel()[:3]} instead of {w.ravel()[:3]}')
                    else:
                        rec.close(fid, g, w, 1e-10, 1e-10*np.nanmax(np.abs(w), initial=0.), what=f'{name} of integers ({dt})')


def record(rec):
    W = alphabet.World(rec.tmp('w'))
    plain = {k: v.copy() for k, v in W.a.items()}
    compare(rec, W, plain, {k: field(v) for k, v in plain.items()}, 'record', 'column of records')
    single(rec, W, plain, field, 'record1')


def pairs(rec, a, b):
    """Two ways of storing, alternating among the arguments."""
    W = alphabet.World(rec.tmp('w'))
    plain = {k: v.copy() for k, v in W.a.items()}
    for off in (0, 1):
        compare(rec, W, plain, {k: STORE[a if (i + off) % 2 else b](v) for i, (k, v) in enumerate(plain.items())}, f'pairs:{a}:{b}:{off}', f'{a} and {b}')


def deepmap(x, f, only=None, path=''):
    if isinstance(x, dict):
        return {a: deepmap(b, f, only, f'{path}/{a}') for a, b in x.items()}
    if isinstance(x, np.ndarray) and (only is None or path.startswith(only)):
        return f(x)
    return x.copy() if isinstance(x, np.ndarray) else x


def models(rec, kind, deep):
    """Models built from arrays stored in that way."""
    from chaosmagpy.chaos import BaseModel, CHAOS
    W = alphabet.World(rec.tmp('w'))
    base, f = fixture.kwargs(), STORE.get(kind) or (lambda v: v.astype(WHOLE[kind]))
    if kind in WHOLE:
        base = deepmap(base, np.round)
        base['coeffs_tdep'] = np.round(fixture.kwargs()['coeffs_tdep']*np.array([3e5, 3e3, 30., 1.])[:, None, None])
    q = {n: g for n, (k, g) in alphabet.operations(W).items() if k in 'esh' and not (n == 'smat' and kind == 'subclass') and (n[:2] == 'm.' or 'W.m' in n or n in MODEL)}
    W.m = CHAOS(name='T', **deepmap(base, np.copy))
    want = {n: run(g, W) for n, g in q.items()}
    for only in (None, *('/' + k for k, v in base.items() if isinstance(v, (np.ndarray, dict)))):
        arrays = deepmap(base, f, only)
        before = fixture.snapshot(arrays)
        try:
            W.m = CHAOS(name='T', **arrays)
        except Exception as err:
            rec.fail(f'build:{kind}:{only}', f'model cannot be built: {err!r}')
            continue
        for n, g in q.items():
            got = run(g, W)
            rec.case((kind, only, n))
            rec.ok(alphabet.same(values(got), values(want[n]), 1e-9), f'models:{kind}:{only}:{n}', f'{only or "all arrays"} stored as {kind}: {n} gives {show(got)} instead of {show(want[n])}')
        rec.ok(fixture.snapshot(arrays) == before, f'models:{kind}:{only}:mut', 'arrays given to the model were modified')
    # single pieces and higher orders
    for order in range(1, 7 if deep else 5):
        br = np.array([-400., -100., 60., 900.])
        c = np.round(np.arange(order*3*8).reshape(order, 3, 8) % 7 - 3.)
        a, b = BaseModel('a', br.copy(), order, c.copy()), BaseModel('b', f(br), order, f(c))
        t = np.array([-700., -400., 0., 60., 61., 900., 1000.])
        for d in range(order+1):
            for ext in ('off', 'constant', 'linear', 'spline'):
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    rec.close(f'base:{kind}:{order}:{d}:{ext}', b.synth_coeffs(t, deriv=d, extrapolate=ext), a.synth_coeffs(t, deriv=d, extrapolate=ext), 1e-12, 1e-12, what='coefficients')
                    rec.close(f'basev:{kind}:{order}:{d}:{ext}', np.array(b.synth_values(t, 6500., 40., 50., deriv=d, extrapolate=ext)), np.array(a.synth_values(t, 6500., 40., 50., deriv=d, extrapolate=ext)), 1e-12, 1e-12, what='field')
        rec.close(f'spec:{kind}:{order}', b.power_spectrum(0.), a.power_spectrum(0.), 1e-12, 1e-12, what='spectrum')
        rec.case((kind, order))


MODEL = ('pp', 'bsv', 'bsvs', 'bspec', 'beu', 'rcarr', 'rcarr2', 'bshc', 'bmat', 'smat')
