"""C06: in-range spline evaluation is exact, per year, and independent of the batch."""
import itertools
import numpy as np
from mc import ref

PROPERTY, LEVEL = 'C06', 'exploration'
RULE = ('a case is (order, breaks, derivative, extrapolation option, batch of times); all batches up to the bound over the '
        'time alphabet (both ends, breaks, interior, outside) are enumerated; non-trivial when an in-range time is in it')
ASSUMPTIONS = ['coefficients outside the generic alphabet behave like those in it (evaluation is linear in them)']
BREAKS = [[-500., 400.], [-500., -100., 400.], [0., 1., 2., 3.], [-1000.5, -900., 120., 800.25], [3650., 3660., 3700., 4000., 4001.], [7., 7.]]
OPTS = [None, 'linear', 'quadratic', 'cubic', 'constant', 'spline', 'off', True, False, 0, 1, 2, 3, 4, 6]


def tasks(tier):
    return [('batches', dict(order=k, b=i, L=3 if tier == 'thorough' else 2)) for k in range(1, 7) for i in range(len(BREAKS))] + \
        [('construction', dict(order=k)) for k in range(1, 7)] + [('shapes', {})] + [('many', dict(order=k)) for k in range(1, 7)]


def alphabet(b):
    s, e = b[0], b[-1]
    mid = [x + f*(y-x) for x, y in zip(b[:-1], b[1:]) for f in (0.3,)]
    inr = sorted(set(list(b) + mid + ([np.nextafter(s, e), np.nextafter(e, s), s + 1e-3, e - 1e-3, e - 1e-6] if e > s else [])))
    out = [s - 800., s - 1e-3, e + 1e-3, e + 365.25]
    return inr, out


def coeffs(order, pieces, dim, seed=1):
    scale = np.array([400.**-(order-1-k) for k in range(order)])
    return ref.lcg(order*pieces*dim, seed, -50, 50).reshape(order, pieces, dim)*scale[:, None, None]


def tolerance(c, b, d):
    w = max(np.max(np.diff(b)), 1.)
    K = c.shape[0]
    return 1e-11*365.25**d*sum(np.abs(c[K-1-p]).max()*w**max(p-d, 0)*float(np.prod(range(p-d+1, p+1))) for p in range(d, K)) + 1e-12


def batches(rec, order, b, L):
    from chaosmagpy.chaos import Base, BaseModel
    br = np.array(BREAKS[b])
    if br[0] == br[-1] and order > 1:
        rec.case(('static only for order 1', order))
        return
    dim = 3
    c = coeffs(order, br.size-1, dim, order + 7*b)
    base = Base('b', br.copy(), order, c.copy())
    model = BaseModel('m', br.copy(), order, c.copy())
    inr, out = alphabet(br)
    want = {(t, d): ref.pp_eval(c, br, t, d)*365.25**d for t in inr for d in range(order+2)}
    groups = [(t,) for t in inr]
    for n in range(2, L+1):
        groups += [g for g in itertools.product(inr + out, repeat=n) if any(x in inr for x in g)]
    for d in range(order+2):
        tol = tolerance(c, br, d)
        for o, opt in enumerate(OPTS):
            obj = (base, model)[o % 2]
            for g in groups if d < 3 or L > 2 else groups[::3]:
                got = obj.synth_coeffs(np.array(g), deriv=d if d or o % 3 else None, extrapolate=opt)
                rec.case((order, b, d, opt if not isinstance(opt, bool) else str(opt), g))
                if got.shape != (len(g), dim):
                    rec.fail(f'shape:{order}:{b}', f'shape {got.shape}')
                    continue
                for i, t in enumerate(g):
                    if t in inr and not np.all(np.abs(got[i] - want[t, d]) <= tol):
                        rec.fail(f'value:{order}:{b}:{d}:{opt!r}:{t}', f'order {order} breaks {br.tolist()} deriv {d} extrapolate={opt!r} '
                                 f'times {g}: at {t} got {got[i].tolist()}, expected {want[t, d].tolist()}')
            for t in inr:
                got = obj.synth_coeffs(float(t), deriv=d, extrapolate=opt)
                rec.close(f'scalar:{order}:{b}:{d}:{opt!r}:{t}', got, want[t, d], 0, tol, 'scalar time')


def construction(rec, order):
    """Declared order below the stored one keeps the lowest powers; dim truncates; constant breaks."""
    from chaosmagpy.chaos import Base, BaseModel
    br = np.array([-300., 0., 500.])
    c = coeffs(order, 2, 8, order)
    for decl in [None] + list(range(1, order+3)):
        for cls in (Base, BaseModel):
            m = cls('m', list(br), decl, c.copy())
            k = min(decl or order, order)
            for d in range(0, k+1):
                for t in (-300., -10., 0., 300., 500.):
                    w = ref.pp_eval(c[-k:], br, t, d)*365.25**d
                    rec.case((order, decl, cls.__name__, d, t))
                    rec.close(f'order:{order}:{decl}:{cls.__name__}:{d}:{t}', m.synth_coeffs(t, deriv=d), w, 0, tolerance(c, br, d), 'declared order')
                    for n in (1, 2, 3):
                        g = m.synth_coeffs(t, deriv=d, **({'dim': min(3*n, 9)} if cls is Base else {'nmax': n}))
                        cut = min(3*n if cls is Base else n*(n+2), 8)
                        rec.close(f'dim:{order}:{decl}:{cls.__name__}:{d}:{t}:{n}', g, w[:cut], 0, tolerance(c, br, d), 'truncation')
            rec.ok(m.order == k and m.pieces == 2 and m.dim == 8, f'attributes:{order}:{decl}', f'order {m.order}, pieces {m.pieces}, dim {m.dim}')
    if order == 1:
        for b1 in (5., [5.], np.array(5.), np.array([5., 5.])):
            m = BaseModel('s', b1, 1, c[:, :1])
            for t in (5., -1000., 1e5):
                rec.case(('static', str(b1), t))
                rec.close(f'static:{b1}:{t}', m.synth_coeffs(t), c[0, 0], 0, 0, 'static model')
    m = BaseModel('none', br, order)
    rec.raises(f'missing:{order}', ValueError, m.synth_coeffs, 0., what='coefficients missing')


def shapes(rec):
    from chaosmagpy.chaos import BaseModel
    br = np.array([-300., 0., 500.])
    for order in (1, 2, 4):
        c = coeffs(order, 2, 8, order)
        m = BaseModel('m', br, order, c)
        T = np.array([-300., -1., 0., 250., 499., 500.])
        one = np.array([ref.pp_eval(c, br, t, 1 if order > 1 else 0) for t in T])*(365.25 if order > 1 else 1)
        d = 1 if order > 1 else 0
        for shape in [(6,), (2, 3), (3, 2), (1, 6), (6, 1), (1, 2, 3)]:
            for conv in (lambda x: x, lambda x: x.astype(int), lambda x: x.astype(np.float32), lambda x: x.tolist(), lambda x: np.asfortranarray(x),
                         lambda x: x[..., ::-1][..., ::-1]):
                t = conv(T.reshape(shape))
                rec.case((order, shape, str(type(t)), str(np.asarray(t).dtype)))
                rec.close(f'shape:{order}:{shape}:{type(t).__name__}', m.synth_coeffs(t, deriv=d), one.reshape(shape + (8,)), 1e-11, 1e-10, 'time shape')


def many(rec, order):
    """Many times at once; models of many pieces and many coefficients."""
    from chaosmagpy.chaos import BaseModel
    from mc.large import tiled
    br = np.array([-500., -100., 400., 401.])
    m = BaseModel('M', br, order, coeffs(order, 3, 8))
    t = np.array([-500., -499.9, -300., -100., 0., 33.3, 400., 400.5, 401., 399.9, 250.])
    for d in (0, 1, 2):
        tiled(rec, f'many:{order}:{d}', lambda x: m.synth_coeffs(x, deriv=d), (t,))
    for pieces, dim in ((255, 3), (257, 3), (1025, 3), (2000, 3), (3, 120), (2, 480)):
        b = np.cumsum(1. + 0.3*np.sin(np.arange(pieces+1.)))
        c = ref.lcg(order*pieces*dim, order, -9, 9).reshape(order, pieces, dim)
        m = BaseModel('M', b, order, c)
        i = sorted({0, 1, 127, 254, 255, 256, 511, 1023, 1024, pieces//2, pieces-2, pieces-1} & set(range(pieces)))
        t = np.array([b[j] + f*(b[j+1]-b[j]) for j in i for f in (0., 0.4)] + [b[-1]])
        for d in (0, 1):
            want = np.array([ref.pp_eval(c, b, x, d)*365.25**d for x in t])
            rec.close(f'pieces:{order}:{pieces}:{dim}:{d}', m.synth_coeffs(t, deriv=d), want, 1e-9, 1e-9*365.25**d, what=f'derivative {d} of {pieces} pieces')
        rec.case((order, pieces, dim), n=t.size)
    c = coeffs(order, 3, 8)
    for s in (2.**18, -2.**20):      # the same model at another epoch
        t = np.array([-500., -499.75, -300., -100., 0., 33.25, 400., 400.5, 401.])
        for d in range(3):
            rec.close(f'epoch:{order}:{s}:{d}', BaseModel('M', br + s, order, c).synth_coeffs(t + s, deriv=d), BaseModel('M', br, order, c).synth_coeffs(t, deriv=d), 1e-12, 1e-12, 'far from the origin')
        rec.case(('epoch', order, s))
