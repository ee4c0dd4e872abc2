"""Long inputs: a lattice of arguments, decided one by one elsewhere, repeated in arrays of many sizes and shapes."""
import numpy as np

SIZES = (1001, 4097, 20000, 65537)


def tiled(rec, fid, f, args, sizes=SIZES, tol=1e-12, axis=0, every=True):
    """f of the repeated arguments equals the repetition of f of the arguments (samples along the given axis of each result); every: the forms below too."""
    if every and axis == 0:
        forms(rec, fid, f, args, tol)
    args = [np.asarray(a) for a in args]
    m = args[0].shape[0]
    as_tuple = lambda x: x if isinstance(x, tuple) else (x,)
    small = [np.moveaxis(np.asarray(x), axis, 0) for x in as_tuple(f(*args))]
    for n in sizes:
        idx = (np.arange(n)*3 + np.arange(n)//m) % m
        shapes = [(n,)]
        if axis == 0 and n % 100 == 0:
            shapes += [(n//100, 100), (2, n//2), (n, 1)]
        for sh in shapes:
            try:
                big = as_tuple(f(*[a[idx].reshape(sh + a.shape[1:]) for a in args]))
            except Exception as e:
                rec.fail(f'{fid}:{n}:{sh}', f'{sh} samples: {e!r}')
                continue
            for i, (b, s) in enumerate(zip(big, small)):
                b = np.moveaxis(np.asarray(b), axis, 0)
                b = b.reshape((n,) + b.shape[len(sh):]) if b.shape[:len(sh)] == sh else b
                w = s[idx]
                scale = np.nanmax(np.abs(s), initial=0.) if s.dtype.kind in 'fc' else 0
                rec.close(f'{fid}:{n}:{sh}:{i}', b, w, tol, tol*(scale or 1.), what=f'result {i} for {sh} samples')
            rec.case((fid, n, sh), n=n)


def _run(rec, fid, f, args, want, sh, tol, what):
    """f of args has, per result, leading shape sh and the wanted samples."""
    try:
        got = f(*args)
    except Exception as e:
        rec.fail(fid, f'{what}: {e!r}')
        return
    for i, (b, w) in enumerate(zip(got if isinstance(got, tuple) else (got,), want)):
        b = np.asarray(b)
        scale = np.nanmax(np.abs(w), initial=0.) if w.dtype.kind in 'fc' else 0
        if b.shape != sh + w.shape[1:]:
            rec.fail(f'{fid}:{i}', f'result {i} for {what}: shape {b.shape} instead of {sh + w.shape[1:]}')
        else:
            rec.close(f'{fid}:{i}', b.reshape(w.shape), w, tol, tol*(scale or 1.), what=f'result {i} for {what}')
    rec.case((fid, what), n=len(want[0]))


def forms(rec, fid, f, args, tol=1e-12, flat=False):
    """The same arguments as scalars, single elements, deep arrays, in other orders, repeated, and as integers (flat: vectors only)."""
    args = [np.asarray(a) for a in args]
    m = args[0].shape[0]
    as_tuple = lambda x: x if isinstance(x, tuple) else (x,)
    base = [np.asarray(x) for x in as_tuple(f(*args))]
    plain = all(a.ndim == 1 and a.dtype.kind in 'if' for a in args)

    def pick(a, i):
        return [x[i] for x in a], [x[i] for x in base]

    for i in range(m):
        a, w = pick(args, [i])
        if plain and not flat:
            _run(rec, f'{fid}:scalar:{i}', f, [x[0].item() for x in a], w, (), tol, f'scalar number {i}')
        _run(rec, f'{fid}:one:{i}', f, a, w, (1,), tol, f'array of number {i} alone')
        if not flat:
            _run(rec, f'{fid}:one3:{i}', f, [x.reshape((1, 1, 1) + x.shape[1:]) for x in a], w, (1, 1, 1), tol, f'array (1, 1, 1) of number {i}')
        for sh in ((3,), (2, 2))[:1 if flat else 2]:
            n = int(np.prod(sh))
            a, w = pick(args, [i]*n)
            _run(rec, f'{fid}:same:{i}:{sh}', f, [x.reshape(sh + x.shape[1:]) for x in a], w, sh, tol, f'array {sh} of number {i}')
    orders = {'reversed': np.arange(m)[::-1], 'up': None, 'down': None, 'twice': np.repeat(np.arange(m), 2), 'again': np.r_[0:m, 0:m], 'pair': np.array([m-1, 0])}
    if args[0].ndim == 1:
        up = np.argsort(args[0], kind='stable')
        orders.update(up=up, down=up[::-1])
    for name, idx in orders.items():
        if idx is not None:
            a, w = pick(args, idx)
            _run(rec, f'{fid}:{name}', f, a, w, (len(idx),), tol, f'order {name}')
    for k in (m//2*2, m//3*3):
        for sh in ((2, 1, k//2), (k//3, 3, 1), (1, k, 1), (k,))[3 if flat else 0:]:
            n = int(np.prod(sh))
            a, w = pick(args, np.arange(n))
            _run(rec, f'{fid}:deep:{sh}', f, [x.reshape(sh + x.shape[1:]) for x in a], w, sh, tol, f'shape {sh}')
            F = [np.asfortranarray(x.reshape(sh + x.shape[1:])) for x in a]
            _run(rec, f'{fid}:fortran:{sh}', f, F, w, sh, tol, f'Fortran-ordered shape {sh}')
    a, w = pick(args, np.arange(m)[::2])
    strided = [x[::2] for x in args]
    _run(rec, f'{fid}:strided', f, strided, w, (len(w[0]),), tol, 'every other element of an array')
    if plain and any(x.dtype.kind == 'f' for x in args):
        ints = [np.round(x) + 0. for x in args]
        want = []
        for i in range(m):
            try:
                want.append((i, [np.asarray(x) if flat else np.asarray(x)[None] for x in as_tuple(f(*[x[[i]] if flat else x[i].item() for x in ints]))]))
            except Exception:
                continue   # rounding took the arguments out of the domain
        for i, w in want:
            if not flat:
                _run(rec, f'{fid}:int:{i}', f, [int(x[i]) for x in ints], w, (), tol, f'Python integers number {i}')
        if want:
            idx = [i for i, _ in want]
            w = [np.concatenate(x) for x in zip(*(w for _, w in want))]
            for kind in (np.int64, np.int32):
                if all(np.all(np.abs(x[idx]) < 2**31) for x in ints):
                    _run(rec, f'{fid}:{kind.__name__}', f, [x[idx].astype(kind) for x in ints], w, (len(idx),), tol, f'integer arrays {kind.__name__}')
