"""A small but complete CHAOS model and RC index files with known values."""
import numpy as np
from mc import ref

SATS = ('alpha', 'bravo', 'charlie')
DIPOLE = np.array([-29442.0, -1501.0, 4797.1])
BREAKS = np.array([-500., -100., 400.])
DELTA = {'q10': np.array([-480., -200., 0., 380.]), 'q11': np.array([-490., 10., 390.]), 's11': np.array([-490., 10., 390.])}
PARTS = ('tdep', 'static', 'gsm', 'sm', 'euler', 'cal')


def kwargs(parts=PARTS, order=4, nt=3, ns=5, sats=SATS, bins=(2, 1, 3), seed=1):
    """Keyword arguments of CHAOS; every array is new."""
    k = dict(breaks=BREAKS.copy())
    if 'tdep' in parts:
        scale = np.array([300.**-(order-1-i) for i in range(order)])
        k.update(order=order, coeffs_tdep=ref.lcg(order*2*nt*(nt+2), seed, -900, 900).reshape(order, 2, -1)*scale[:, None, None])
    if 'static' in parts:
        c = ref.lcg(ns*(ns+2), seed+1, -40, 40)
        c[:nt*(nt+2)] = 0.   # static part starts above the time-dependent degree, as in CHAOS
        k.update(coeffs_static=c.reshape(1, 1, -1))
    if 'gsm' in parts:
        k.update(coeffs_gsm=np.array([13.5, 0, 0, 1.25, 0, 0, 0, 0]))
    if 'sm' in parts:
        k.update(coeffs_sm=ref.lcg(8, seed+2, -3, 3), breaks_delta={a: b.copy() for a, b in DELTA.items()},
                 coeffs_delta={a: ref.lcg(b.size-1, seed+3+i, -9, 9).reshape(1, -1) for i, (a, b) in enumerate(DELTA.items())})
    if 'euler' in parts:
        k['breaks_euler'], k['coeffs_euler'] = {}, {}
        for i, (s, n) in enumerate(zip(sats, bins)):
            k['breaks_euler'][s] = -400. + 100.*np.arange(n+1) + 7*i
            k['coeffs_euler'][s] = ref.lcg(3*n, seed+6+i, -90, 90).reshape(1, n, 3)
        k['meta'] = dict(params=dict(Euler_prerotation=ref.lcg(3*len(sats), seed+9, -90, 90).reshape(-1, 3)), satellites=tuple(sats))
    if 'cal' in parts:
        k['breaks_cal'] = {'cryosat-2_1': np.array([-300., -250., -200.])}
        k['coeffs_cal'] = {'cryosat-2_1': ref.lcg(18, seed+10, -2, 2).reshape(1, 2, 9)}
    return k


def model(parts=PARTS, name='T', **kw):
    from chaosmagpy.chaos import CHAOS
    return CHAOS(name=name, **kwargs(parts, **kw))


RC_TIME = np.array([-520., -450.25, -300., -299.5, -10., 0., 1/24, 2/24, 0.5, 100 + 7/24, 120.125, 399., 410.])
RC_E = ref.lcg(RC_TIME.size, 21, -30, 30)
RC_I = ref.lcg(RC_TIME.size, 22, -12, 12)


def rc_file(path, kind='h5'):
    if kind == 'h5':
        import h5py
        with h5py.File(path, 'w') as f:
            for k, v in (('time', RC_TIME), ('RC', RC_E + RC_I), ('RC_e', RC_E), ('RC_i', RC_I)):
                f.create_dataset(k, data=v)
    else:
        with open(path, 'w') as f:
            f.write('# RC index\n# time RC RC_e RC_i flag\n')
            for t, e, i in zip(RC_TIME, RC_E, RC_I):
                f.write(f'{float(t)!r} {float(e+i)!r}  {float(e)!r} {float(i)!r} D\n')
    return path


def use_rc(path, kind='h5'):
    from chaosmagpy import basicConfig
    basicConfig['file.RC_index'] = rc_file(path, kind)


def rc_value(t, source):
    return np.interp(t, RC_TIME, RC_E if source.startswith('e') else RC_I)


def delta_value(t, key, k=None):
    """Piecewise constant, right-continuous, nearest bin outside."""
    k = k or kwargs()
    b, c = k['breaks_delta'][key], k['coeffs_delta'][key][0]
    i = int(np.clip(np.searchsorted(b, t, side='right')-1, 0, c.size-1))
    return c[i]


def rotation(t, which, induced):
    """Rotation matrix at one time from the configured spectrum file (scaled components)."""
    from chaosmagpy import basicConfig
    f = np.load(basicConfig[f'file.{which.upper()}_spectrum'])
    s = '_ind' if induced else ''
    fr, sp = f['frequency'+s], f['spectrum'+s]
    w = np.ones(fr.shape) if bool(f['scaled']) else np.where(fr == 0, 1., 2.)
    ph = 2*np.pi*fr*t
    return np.sum(w*(sp.real*np.cos(ph) - sp.imag*np.sin(ph)), axis=0)


def snapshot(obj, seen=None):
    """Deep, comparable description of an object's state (arrays by value, dtype and shape)."""
    if isinstance(obj, np.ndarray):
        return ('a', obj.shape, obj.dtype.str, obj.tobytes() if obj.dtype != object else repr(obj.tolist()))
    if isinstance(obj, dict):
        return ('d', type(obj).__name__, tuple((str(k), snapshot(obj[k])) for k in obj))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(snapshot(x) for x in obj))
    if hasattr(obj, '__dict__') and type(obj).__module__.startswith('chaosmagpy'):
        return ('o', type(obj).__name__, tuple((k, snapshot(v)) for k, v in sorted(vars(obj).items()) if k != 'timestamp' and k[0] != '_'))
    return repr(obj)
