"""C03: array/grid evaluation equals point-by-point evaluation; bad shapes and colatitudes are refused."""
import itertools
import numpy as np
from mc import ref

PROPERTY, LEVEL = 'C03', 'exploration'
RULE = ('a case is one tuple of operand shapes (or argument types, or colatitude array) for one entry point; every tuple '
        'over the shape alphabet is enumerated once; non-trivial when it is broadcastable with more than one element, or '
        'when it must be refused')
ASSUMPTIONS = ['numpy broadcasting itself is trusted to define the output shape']

SH = [(), (1,), (2,), (3,), (2, 1), (1, 3), (2, 3), (2, 1, 3)]
C_POOL = [[100., -20., 30., 5., -7., 9., 2., -4.], [1., 2., 3., 4., 5., 6., 7., 8.], [-50., 0., 20., 0., 3., 0., -8., 1.]]
T_POOL = [-200., 0., 333.]
R_POOL = [6371.2, 5000., 8000.]
TH_POOL = [90., 0., 37.5]
PH_POOL = [0., -100., 400.]
LARGE = [99, 100, 101, 255, 256, 257, 500, 999, 1000, 1001, 1024, 1025, 2049, 4097, 10000, 10007]


def tasks(tier):
    out = []
    n = len(SH) if tier == 'thorough' else len(SH) - 1
    for i in range(n):
        for entry in ('coeffs', 'pp', 'model', 'chaos'):
            out.append(('product', dict(entry=entry, first=i, n=n)))
            out.append(('grid', dict(entry=entry, first=i, n=n)))
    for entry in ('coeffs', 'pp', 'model', 'chaos', 'design'):
        out.append(('types', dict(entry=entry)))
        out.append(('bounds', dict(entry=entry, L=3 if tier != 'thorough' else 4)))
        out.append(('interior', dict(entry=entry)))
        out.append(('large', dict(entry=entry, sizes=LARGE if tier != 'thorough' else LARGE + [30011, 65537, 100003])))
    out.append(('refused', {}))
    return out


def build():
    import chaosmagpy as cp
    from chaosmagpy.chaos import BaseModel, CHAOS
    from chaosmagpy import model_utils as mu
    breaks = np.array([-500., -100., 400.])
    pp = ref.lcg(3*2*8, 5).reshape(3, 2, 8)*np.array([1e-4, 1e-1, 50.])[:, None, None]
    model = BaseModel('m', breaks, 3, pp.copy())
    chaos = CHAOS(breaks, 3, coeffs_tdep=pp.copy(), coeffs_static=np.array(C_POOL[0]).reshape(1, 1, 8))
    return dict(
        coeffs=lambda c, r, t, p, **k: mu.synth_values(c, r, t, p, **k),
        pp=lambda c, r, t, p, **k: mu.synth_from_pp(breaks, 3, pp, c, r, t, p, **k),
        model=lambda c, r, t, p, **k: model.synth_values(c, r, t, p, **k),
        chaos=lambda c, r, t, p, **k: (chaos.synth_values_tdep(c, r, t, p, **k) if k else chaos(c, r, t, p, source_list=['tdep', 'static'])),
        design=lambda c, r, t, p, **k: [a @ np.array(C_POOL[0]) for a in mu.design_gauss(r, t, p, 2)])


def first_arg(entry, shape):
    n = int(np.prod(shape, dtype=int))
    if entry == 'coeffs':
        return np.array([C_POOL[i % 3] for i in range(n)]).reshape(shape + (8,)), np.arange(n).reshape(shape) % 3
    if entry == 'design':
        return None, np.zeros(shape, int)
    return np.array([T_POOL[i % 3] for i in range(n)]).reshape(shape), np.arange(n).reshape(shape) % 3


def arr(pool, shape, off=0):
    n = int(np.prod(shape, dtype=int))
    idx = (np.arange(n) + off) % 3
    return np.array([pool[i] for i in idx]).reshape(shape), idx.reshape(shape)


class Table:
    """Answers for single points, computed by the same entry point one at a time."""
    def __init__(self, entry, f, kw=()):
        self.d, self.f, self.entry, self.kw = {}, f, entry, dict(kw)

    def __call__(self, i, j, k, l):
        key = (i, j, k, l)
        if key not in self.d:
            c = {'coeffs': C_POOL, 'design': [None]}.get(self.entry, T_POOL)[i]
            out = self.f(np.array(c, float) if c is not None else None, R_POOL[j], TH_POOL[k], PH_POOL[l], **self.kw)
            self.d[key] = np.array([float(np.asarray(x)) for x in out])
        return self.d[key]

    def fill(self, I, J, K, L):
        b = np.broadcast_arrays(I, J, K, L)
        out = np.empty((3,) + b[0].shape)
        for ix in np.ndindex(b[0].shape):
            out[(slice(None),) + ix] = self(*(int(x[ix]) for x in b))
        return out


def product(rec, entry, first, n):
    f = build()[entry]
    tab = Table(entry, f)
    ref_ok = tab(0, 0, 0, 0)
    if entry == 'coeffs':
        rec.close('anchor', ref_ok, ref.field(C_POOL[0], ref.nm_list(1, 2), R_POOL[0], TH_POOL[0], PH_POOL[0]), 1e-11, 1e-9, 'single point')
    s0 = SH[first]
    c, ci = first_arg(entry, s0)
    for sr, st, sp in itertools.product(SH[:n], repeat=3):
        (r, ri), (t, ti), (p, pi) = arr(R_POOL, sr), arr(TH_POOL, st, 1), arr(PH_POOL, sp, 2)
        key = (entry, s0, sr, st, sp)
        try:
            shape = np.broadcast_shapes(s0, sr, st, sp)
        except ValueError:
            rec.case(key)
            rec.raises(f'incompatible:{key}', ValueError, f, c, r, t, p, what='shapes that do not broadcast')
            continue
        got = f(c, r, t, p)
        want = tab.fill(ci, ri, ti, pi)
        rec.case(key, nontrivial=want[0].size > 1)
        for i in range(3):
            rec.close(f'product:{key}:{i}', got[i], want[i], 1e-11, 1e-9, 'array vs single points')


def grid(rec, entry, first, n):
    f = build()[entry]
    tab = Table(entry, f, dict(grid=False))
    G = [(1,), (2,), (3,), (2, 3)]
    s0 = SH[first]
    c, ci = first_arg(entry, s0)
    for sr, st, sp in itertools.product(SH[:n], G, G):
        (r, ri), (t, ti), (p, pi) = arr(R_POOL, sr), arr(TH_POOL, st, 1), arr(PH_POOL, sp, 2)
        tg, pg = ti[..., :, None], pi[..., None, :]
        key = (entry, 'grid', s0, sr, st, sp)
        try:
            np.broadcast_shapes(s0, sr, tg.shape, pg.shape)
        except ValueError:
            rec.case(key)
            rec.raises(f'incompatible:{key}', ValueError, f, c, r, t, p, grid=True, what='grid shapes that do not broadcast')
            continue
        got = f(c, r, t, p, grid=True)
        want = tab.fill(ci, ri, tg, pg)
        rec.case(key)
        for i in range(3):
            rec.close(f'grid:{key}:{i}', got[i], want[i], 1e-11, 1e-9, 'grid vs single points')
    if first == 0:  # grid=False and grid=None behave like no option
        r, t, p = 6371.2, np.array([10., 90.]), np.array([5., 60.])
        for g in (False, None):
            for i in range(3):
                rec.close(f'nogrid:{entry}:{g}:{i}', f(c, r, t, p, grid=g)[i],
                          np.array([np.asarray(f(c, r, a, b, grid=g)[i]) for a, b in zip(t, p)]), 1e-11, 1e-9, 'grid off')


def types(rec, entry):
    """Scalars, lists, tuples, integer and single precision arrays give the same answers."""
    f = build()[entry]
    conv = {'float': lambda x: x, 'list': lambda x: np.asarray(x).tolist(), 'tuple': lambda x: tuple(np.atleast_1d(x).tolist()),
            'int': lambda x: np.asarray(x).astype(int), 'int32': lambda x: np.asarray(x).astype(np.int32),
            'f32': lambda x: np.asarray(x).astype(np.float32), 'big': lambda x: np.asarray(x).astype('>f8'),
            'fortran': lambda x: np.asfortranarray(x), 'strided': lambda x: np.repeat(np.atleast_1d(x), 2, axis=-1)[..., ::2]}
    base = dict(c=np.array([[100., -20., 30., 5., -7., 9., 2., -4.]]*2) if entry == 'coeffs' else np.array([-200., 333.]),
                r=np.array([6371., 7000.]), t=np.array([30., 90.]), p=np.array([-100., 400.]))
    want = f(base['c'] if entry != 'design' else None, base['r'], base['t'], base['p'])
    for name in ('c', 'r', 't', 'p'):
        if name == 'c' and entry == 'design':
            continue
        for cn, cv in conv.items():
            if cn == 'tuple' and name == 'c' and entry == 'coeffs':
                continue
            if entry == 'chaos' or True:
                a = dict(base)
                a[name] = cv(base[name])
                if entry == 'design':
                    a['c'] = None
                got = f(a['c'], a['r'], a['t'], a['p'])
                rec.case((entry, name, cn))
                for i in range(3):
                    rec.close(f'type:{entry}:{name}:{cn}:{i}', got[i], want[i], 1e-11, 1e-9, 'argument type')


def bounds(rec, entry, L):
    """Every array over an alphabet of colatitudes: evaluated iff all lie in [0, 180]."""
    f = build()[entry]
    c = None if entry == 'design' else (np.array(C_POOL[0]) if entry == 'coeffs' else 0.)
    nms = ref.nm_list(1, 2)
    A = [0., 180., 57., -1e-9, -30., 180.0000001, 200.]
    ok = {}
    for n in range(0, L+1):
        for comb in itertools.product(A, repeat=max(n, 1)):
            t = comb[0] if n == 0 else np.array(comb)
            bad = any(x < 0 or x > 180 for x in comb)
            key = (entry, n, comb)
            rec.case(key)
            if bad:
                rec.raises(f'bounds:{key}', ValueError, f, c, 6371.2, t, 20., what=f'colatitude {t}')
                if entry != 'design' and n and entry != 'chaos':
                    rec.raises(f'boundsgrid:{key}', ValueError, f, c, 6371.2, t, np.array([20., 30.]), grid=True, what=f'colatitude {t}')
            else:
                got = np.stack([np.asarray(x) for x in f(c, 6371.2, t, 20.)], axis=-1)
                for x in comb:
                    if x not in ok:
                        ok[x] = np.array([float(np.asarray(v)) for v in f(c, 6371.2, x, 20.)])
                        if entry == 'coeffs':
                            rec.close(f'boundsref:{x}', ok[x], ref.field(C_POOL[0], nms, 6371.2, x, 20.), 1e-10, 1e-9, 'pole value')
                want = np.array([ok[x] for x in comb])
                rec.close(f'bounds:{key}', got, want[0] if n == 0 else want, 1e-10, 1e-9, 'mixed colatitudes')


def interior(rec, entry):
    """One bad colatitude at every place of arrays of every small shape and of some large ones."""
    f = build()[entry]
    c = None if entry == 'design' else (np.array(C_POOL[0]) if entry == 'coeffs' else 0.)
    shapes = [(n,) for n in range(2, 10)] + [(2, 2), (2, 3), (3, 3), (4, 2), (1, 5), (5, 1), (2, 2, 2), (3, 3, 3), (64,), (1000,), (40, 30), (5000,), (10001,), (1025, 9)]
    for shape in shapes:
        n = int(np.prod(shape))
        where = range(n) if n < 65 else (0, 1, n//3, n//2, n-2, n-1)
        for i, bad in itertools.product(where, (-0.5, 180.5, -1e-9, 1e4, -180., 270.)):
            t = np.linspace(0., 180., n)
            t[i] = bad
            for order in ('up', 'down', 'mix'):
                u = {'up': t, 'down': t[::-1], 'mix': np.roll(t, 1 + n//2)}[order].reshape(shape)
                if order != 'up' and bad not in (-0.5, 180.5):
                    continue
                rec.case((entry, shape, i, bad, order))
                rec.raises(f'interior:{entry}:{shape}:{i}:{bad}:{order}', ValueError, f, c, 6371.2, u, 20., what=f'colatitude {bad} at place {i} of {shape}')
                if entry != 'design' and entry != 'chaos':
                    rec.raises(f'interiorgrid:{entry}:{shape}:{i}:{bad}:{order}', ValueError, f, c, 6371.2, u.ravel(), np.array([20., 30., 50.]), grid=True,
                               what=f'colatitude {bad} at place {i} of {n}, grid')


def large(rec, entry, sizes):
    """Many points at once (round numbers, powers of two and their neighbours): element by element the same answers as one at a time."""
    f = build()[entry]
    tab = Table(entry, f)
    for n in sizes:
        for shape in [(n,)] + ([(n//10, 10), (1, n), (n, 1)] if n % 10 == 0 else []):
            I = np.zeros(shape, int) if entry == 'design' else (np.arange(n)*7//3 % 3).reshape(shape)
            J, K, L = ((np.arange(n)*k//5 % 3).reshape(shape) for k in (3, 8, 11))
            if entry in ('pp', 'model', 'chaos'):
                c = np.array(T_POOL)[I]
            elif entry == 'coeffs':
                c = np.array(C_POOL)[I]
            else:
                c = None
            got = f(c, np.array(R_POOL)[J], np.array(TH_POOL)[K], np.array(PH_POOL)[L])
            look = np.array([[[[tab(i, j, k, l) for l in range(3)] for k in range(3)] for j in range(3)] for i in range(1 if entry == 'design' else 3)])
            want = np.moveaxis(look[I, J, K, L], -1, 0)
            rec.case((entry, shape), n=n)
            for i in range(3):
                rec.close(f'large:{entry}:{shape}:{i}', got[i], want[i], 1e-11, 1e-9, 'many points')
        # one coefficient vector or time for all points, and a long grid
        if n <= 1025:
            c = {'coeffs': np.array(C_POOL[0]), 'design': None}.get(entry, T_POOL[0])
            got = f(c, R_POOL[0], np.array(TH_POOL)[K.ravel()], np.array(PH_POOL)[L.ravel()])
            w = np.moveaxis(look[0, 0, K.ravel(), L.ravel()], -1, 0)
            for i in range(3):
                rec.close(f'large1:{entry}:{n}:{i}', got[i], w[i], 1e-11, 1e-9, 'many points, one time')
            kk, ll = np.arange(n) % 3, np.arange(5) % 3
            if entry != 'design':
                g2 = f(c, R_POOL[0], np.array(TH_POOL)[kk], np.array(PH_POOL)[ll], grid=True)
                g3 = f(c, R_POOL[0], np.array(TH_POOL)[ll], np.array(PH_POOL)[kk], grid=True)
                plain = Table(entry, f, dict(grid=False))
                lk = np.array([[plain(0, 0, k, l) for l in range(3)] for k in range(3)])
                for i in range(3):
                    rec.close(f'largeg:{entry}:{n}:{i}', g2[i], lk[kk[:, None], ll[None]][..., i], 1e-11, 1e-9, 'long grid')
                    rec.close(f'largeh:{entry}:{n}:{i}', g3[i], lk[ll[:, None], kk[None]][..., i], 1e-11, 1e-9, 'wide grid')


def refused(rec):
    from chaosmagpy import model_utils as mu
    c = np.array(C_POOL[0])
    for kw in (dict(source='foo'), dict(source='Internal '), dict(nmax=1, nmin=2), dict(nmin=0), dict(nmin=-1), dict(source='toroidal')):
        rec.case(str(kw))
        rec.raises(f'arg:{kw}', (ValueError, AssertionError), mu.synth_values, c, 6371.2, 30., 20., what=f'{kw}', **kw)
