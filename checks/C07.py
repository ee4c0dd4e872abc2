"""C07: extrapolation is the requested Taylor polynomial at the nearest end; always warned about."""
import itertools
import math
import warnings
import numpy as np
from mc import ref
from checks.C06 import BREAKS, coeffs

PROPERTY, LEVEL = 'C07', 'exploration'
RULE = ('a case is (order, breaks, derivative, option, batch of times); enumerated completely over the alphabet; non-trivial '
        'when at least one time lies outside the model period')
ASSUMPTIONS = ['evaluation is linear in the coefficients']
KEY = {None: 2, 'linear': 2, 'quadratic': 3, 'cubic': 4, 'constant': 1, 'spline': None, 'off': 0, 'T': 2, 'F': 0,
       0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 9: 9, 3.0: 3}


def tasks(tier):
    return [('options', dict(order=k, b=i, L=2 if tier != 'thorough' else 3)) for k in range(1, 7) for i in range(len(BREAKS))] + \
        [('wrappers', dict(order=k)) for k in range(1, 6)] + [('refused', {})] + [('many', dict(order=k)) for k in range(1, 6)]


def taylor(c, br, order, key, t, d):
    if key == 0:
        return np.full(c.shape[2:], np.nan)
    end = br[0] if t < br[0] else br[-1]
    i = 0 if t < br[0] else c.shape[1]-1
    tay = [ref.poly_eval(c[:, i], end - br[i], k)/math.factorial(k) for k in range(min(key, order))]
    return ref.poly_eval(np.array(tay[::-1]), t - end, d)*365.25**d


def options(rec, order, b, L):
    from chaosmagpy.chaos import Base, BaseModel
    br = np.array(BREAKS[b])
    if br[0] == br[-1] and order > 1:
        rec.case(('static only for order 1', order))
        return
    c = coeffs(order, br.size-1, 3, order + 7*b)
    objs = [Base('b', br.copy(), order, c.copy()), BaseModel('m', br.copy(), order, c.copy())]
    s, e = br[0], br[-1]
    out = [s-3000., s-100., s-1e-6, e+1e-6, e+50., e+3000.]
    inr = [s, (s+e)/2, e] + ([e - 1e-3, e - 1e-6, s + 1e-3] if e > s else [])
    batches = [(t,) for t in out + inr] + [g for n in range(2, L+1) for g in itertools.product(out + inr, repeat=n)]
    for d in range(order+2):
        for opt, key in KEY.items():
            key = order if key is None else key
            o = {'T': True, 'F': False}.get(opt, opt) if isinstance(opt, str) else opt
            want = {t: taylor(c, br, order, key, t, d) for t in out}
            inside = {t: ref.pp_eval(c, br, t, d)*365.25**d for t in inr}
            for obj in objs:
                for g in batches if obj is objs[0] else batches[:12]:
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter('always')
                        got = obj.synth_coeffs(np.array(g), deriv=d, extrapolate=o)
                    outside = any(t in want for t in g)
                    rec.case((order, b, d, str(opt), g, type(obj).__name__), nontrivial=outside)
                    if bool(w) != outside:
                        rec.fail(f'warning:{order}:{b}:{opt}', f'times {g}, period {br.tolist()}, extrapolate={o!r}: {len(w)} warnings')
                    for i, t in enumerate(g):
                        if t in want or d < 2:
                            x = want[t] if t in want else inside[t]
                            tol = 1e-9*np.abs(x).max() + 1e-9*365.25**d*np.abs(c[-1-min(d, order-1)]).max() + 1e-10
                            good = np.isnan(got[i]).all() if np.isnan(x).any() else np.all(np.abs(got[i] - x) <= tol)
                            if got.shape != (len(g), 3) or not good:
                                rec.fail(f'value:{order}:{b}:{d}:{opt}:{t}', f'order {order} breaks {br.tolist()} deriv {d} extrapolate={o!r} times {g}: '
                                         f'at {t} got {got[i].tolist()}, expected {x.tolist()}')


def wrappers(rec, order):
    """synth_values, CHAOS.synth_coeffs_tdep/synth_values_tdep hand the option through."""
    from chaosmagpy.chaos import BaseModel, CHAOS
    br = np.array(BREAKS[3])
    c = coeffs(order, br.size-1, 8, order)
    m = BaseModel('m', br, order, c)
    ch = CHAOS(br, order, coeffs_tdep=c)
    nms = ref.nm_list(1, 2)
    for opt, key in KEY.items():
        o = {'T': True, 'F': False}.get(opt, opt) if isinstance(opt, str) else opt
        key = order if key is None else key
        for d in range(order+1):
            for t in (br[0]-400., br[-1]+400., 300.):
                w = taylor(c, br, order, key, t, d) if t != 300. else ref.pp_eval(c, br, t, d)*365.25**d
                B = ref.field(w, nms, 6400., 50., 60.)
                rec.case((order, str(opt), d, t))
                sc = np.abs(w).max() if np.isfinite(w).all() else 1.
                rec.close(f'tdep:{order}:{opt}:{d}:{t}', ch.synth_coeffs_tdep(t, deriv=d, extrapolate=o), w, 1e-8, 1e-8*sc, 'synth_coeffs_tdep')
                rec.close(f'cut:{order}:{opt}:{d}:{t}', ch.synth_coeffs_tdep(t, nmax=1, deriv=d, extrapolate=o), w[:3], 1e-8, 1e-8*sc, 'synth_coeffs_tdep')
                for name, f in (('model', m.synth_values), ('chaos', ch.synth_values_tdep)):
                    rec.close(f'{name}:{order}:{opt}:{d}:{t}', np.stack(f(t, 6400., 50., 60., deriv=d, extrapolate=o)), B, 1e-8, 1e-7*sc, 'synth_values')


def refused(rec):
    from chaosmagpy.chaos import BaseModel
    m = BaseModel('m', np.array(BREAKS[1]), 3, coeffs(3, 2, 8))
    for opt in ('foo', 'Linear', '', 'quintic'):
        for t in (-1000., np.array([0., 1e4])):
            rec.case((opt, str(t)))
            rec.raises(f'option:{opt}', ValueError, m.synth_coeffs, t, extrapolate=opt, what=f'extrapolate={opt!r}')


def many(rec, order):
    """Many times at once, some or all of them outside; few of them outside among many inside."""
    import warnings
    from chaosmagpy.chaos import BaseModel
    from mc.large import tiled
    br = np.array([-500., -100., 400.])
    c = ref.lcg(order*2*8, order, -9, 9).reshape(order, 2, 8)/np.array([300.**k for k in range(order-1, -1, -1)])[:, None, None]
    m = BaseModel('M', br, order, c)
    t = np.array([-900., -500.1, -300., -100., 0., 33.3, 400., 400.5, 900., 399.9, 2500.])
    for opt, d in itertools.product((None, 'off', 'constant', 'spline', 2), (0, 1)):
        tiled(rec, f'many:{order}:{opt}:{d}', lambda x: m.synth_coeffs(x, deriv=d, extrapolate=opt), (t,), sizes=(1001, 20000))
    for n in (1001, 4097, 20011, 65537):
        for i, bad in itertools.product((0, n//3, n-1), (-500.5, 400.5)):
            x = np.linspace(-499., 399., n)
            x[i] = bad
            for opt in (None, 'off', 'constant'):
                with warnings.catch_warnings(record=True) as log:
                    warnings.simplefilter('always')
                    got = m.synth_coeffs(x, extrapolate=opt)[i]
                fid = f'few:{order}:{n}:{i}:{bad}:{opt}'
                rec.ok(len(log) > 0, fid, f'no warning about one of {n} times outside the period')
                k = {None: 2, 'off': 0, 'constant': 1}[opt]
                rec.close(fid, got, taylor(c, br, order, k, bad, 0), 1e-9, 1e-9, what='the time outside')
                rec.case(fid)
    for x, opt in itertools.product((-2.**18, 2.**20, 1e6, -1e9), ('off', 'constant')):
        got = m.synth_coeffs(np.array([x, 0.]), extrapolate=opt)[0]
        rec.close(f'remote:{order}:{opt}:{x}', got, taylor(c, br, order, 0 if opt == 'off' else 1, x, 0), 1e-9, 1e-9, what='a time far away')
        rec.case(('remote', order, opt, x))
