"""C29: position of the Sun and zenith angles."""
import itertools
import math
import numpy as np
from mc import ref

PROPERTY, LEVEL = 'C29', 'exploration'
RULE = ('every day of the supported period at a set of times of day (including the last representable instant of the day) is compared with '
        'an independent solar ephemeris (Meeus, chapter 25, with nutation and apparent sidereal time); every day outside the period within '
        'a window, and every mixture with a valid time, must be refused; zenith angles on a lattice of positions including the sub-solar '
        'point, its antipode and the poles.')
ASSUMPTIONS = ['1901-01-01 00:00 to 2098-12-31 16:48 must work, before 1900-12-31 and from 2100-01-01 on must be refused; the year 2099 is not claimed (the text says both "through" and "between")']
TOL = 0.02
FIRST, LAST = ref.days_from_civil(1901, 1, 1), ref.days_from_civil(2098, 12, 30)


def tasks(tier):
    more = tier == 'thorough'
    k = 8
    e = np.linspace(FIRST, LAST+1, k+1).astype(int).tolist()
    return [('days', dict(lo=a, hi=b, more=more)) for a, b in zip(e[:-1], e[1:])] + [('edges', {}), ('shapes', {}), ('several', {}), ('zenith', dict(more=more)), ('continuity', dict(more=more))]


def ephemeris(t):
    """Sub-solar colatitude and longitude (Meeus low accuracy, 0.01 degrees)."""
    d2 = t - 0.5                      # days since J2000.0
    T = d2/36525
    L0 = 280.46646 + 36000.76983*T + 0.0003032*T**2
    M = np.radians(357.52911 + 35999.05029*T - 0.0001537*T**2)
    C = ((1.914602 - 0.004817*T - 0.000014*T**2)*np.sin(M) + (0.019993 - 0.000101*T)*np.sin(2*M) + 0.000289*np.sin(3*M))
    om = np.radians(125.04 - 1934.136*T)
    lam = np.radians(L0 + C - 0.00569 - 0.00478*np.sin(om))
    eps = np.radians(23.439291 - 0.0130042*T + 0.00256*np.cos(om))
    x, y, z = np.cos(lam), np.cos(eps)*np.sin(lam), np.sin(eps)*np.sin(lam)
    days = np.floor(t)
    gmst = 280.46061837 + 360.98564736629*(days-0.5) % 360 + 360.98564736629*(t-days) + 0.000387933*T**2
    gast = gmst - 0.0048*np.sin(om)*np.cos(eps)
    a = np.radians(gast)
    e = (np.cos(a)*x + np.sin(a)*y, -np.sin(a)*x + np.cos(a)*y, z)
    return e


def unit(theta, phi):
    t, p = np.radians(theta), np.radians(phi)
    return np.sin(t)*np.cos(p), np.sin(t)*np.sin(p), np.cos(t)


def distance(a, b):
    """Angle in degrees, accurate for all angles."""
    s = np.sqrt(sum((x-y)**2 for x, y in zip(a, b)))
    c = np.sqrt(sum((x+y)**2 for x, y in zip(a, b)))
    return np.degrees(2*np.arctan2(s, c))


def days(rec, lo, hi, more):
    from chaosmagpy import coordinate_utils as cu
    fr = [0., 0.25, 0.5, 0.703125, 1-1e-9] if not more else np.append(np.arange(0, 1, 1/96), [1e-9, 1-1e-9, 1-1e-7])
    for f in fr:
        t = np.arange(lo, hi) + f
        th, ph = cu.sun_position(t)
        rec.bulk(t.size, sample=(lo, hi, float(f)))
        rec.ok(np.all(np.isfinite(th)) and np.all((th >= 66.4) & (th <= 113.6)) and np.all((ph >= -180) & (ph <= 180)),
               f'range:{lo}:{f}', 'colatitude or longitude outside its range')
        d = distance(unit(th, ph), ephemeris(t))
        i = int(np.nanargmax(np.where(np.isnan(d), 1e9, d)))
        rec.ok(d[i] < TOL, f'day:{lo}:{f}', f'Sun at {t[i]} is {d[i]} degrees off the ephemeris: {th[i]} {ph[i]}')


def continuity(rec, more):
    """Neighbouring instants around every midnight and every wrap of the angles."""
    from chaosmagpy import coordinate_utils as cu
    t0 = np.arange(FIRST, LAST, 1 if more else 1)
    for eps in (1e-10, 1e-7, 1e-5):
        a, b = cu.sun_position(t0 - eps), cu.sun_position(t0 + eps)
        d = distance(unit(*a), unit(*b))
        bad = d > 2*eps*362 + 1e-5
        rec.bulk(t0.size, sample=('midnight', eps))
        rec.ok(not bad.any(), f'midnight:{eps}', f'jump of {d.max()} degrees at midnight of day {t0[np.argmax(d)]}')
    # every minute of sample days: the longitude moves west by a quarter degree per minute
    for day in (0, -7, 171, 265, -36000, 30000, ref.days_from_civil(2024, 2, 29), -1, 1):
        t = day + np.arange(0, 1441)/1440
        th, ph = cu.sun_position(t)
        step = np.mod(np.diff(ph) + 180, 360) - 180
        rec.bulk(t.size)
        rec.ok(np.all(np.abs(step + 0.25) < 5e-4) and np.all(np.abs(np.diff(th)) < 4e-4), f'minutes:{day}', 'uneven motion of the Sun')


def edges(rec):
    from chaosmagpy import coordinate_utils as cu
    lo, hi = ref.days_from_civil(1900, 12, 31), ref.days_from_civil(2100, 1, 1)
    bad = list(range(lo-900, lo)) + list(range(hi, hi+900)) + [-1e5, -1e6, 1e5, 1e7, 40000.5, float('nan'), float('inf'), -float('inf'), lo-1e-6, hi+1e-6]
    for t in bad:
        for arr in (np.array(t), np.array([0., t]), np.array([t, 0.]), np.array([[0., 1.], [t, 2.]])):
            rec.case((t, arr.shape))
            rec.raises(f'refuse:{t}:{arr.shape}:{arr.flat[0]}', Exception, cu.sun_position, arr, what=f'time {t} outside the period')
        rec.raises(f'zenith:{t}', Exception, cu.zenith_angle, np.array([0., t]), 40., 10., what=f'zenith angle at time {t}')
    for t in (FIRST, LAST, FIRST+0.5, LAST+0.5, LAST+1, LAST+1.7, FIRST+1e-6):
        th, ph = cu.sun_position(np.array([float(t)]))
        rec.ok(np.all(np.isfinite(th)), f'accept:{t}', 'refused')


def shapes(rec):
    from chaosmagpy import coordinate_utils as cu
    for sh in ((), (1,), (5,), (2, 3), (2, 1, 2), (0,)):
        for dt in (float, int):
            t = (np.arange(int(np.prod(sh)))*811 - 2000).reshape(sh).astype(dt)
            if dt is float:
                t = t + 0.3
            keep = np.copy(t)
            th, ph = cu.sun_position(t)
            rec.case((sh, dt))
            rec.ok(np.shape(th) == np.shape(ph) == sh and np.array_equal(keep, t), f'shape:{sh}:{dt}', f'shape {np.shape(th)} or argument modified')
            for i in np.ndindex(*sh):
                a, b = cu.sun_position(float(np.asarray(t)[i]))
                rec.close(f'el:{sh}:{dt}:{i}', [np.asarray(th)[i], np.asarray(ph)[i]], [a, b], 0, 1e-9, what='element')


def zenith(rec, more):
    from chaosmagpy import coordinate_utils as cu
    T = np.array([0., 0.5, 79.31, 171.9, 265.02, 7304.75, -36000.1, 35000.4])
    th = np.array([0., 1e-7, 1e-3, 10., 66.56, 90., 113.44, 150., 179.999, 180.])
    ph = np.arange(-360, 721, 15 if not more else 1)
    TT, TH, PH = np.meshgrid(T, th, ph, indexing='ij')
    sun = cu.sun_position(TT)
    z = cu.zenith_angle(TT, TH, PH)
    rec.bulk(z.size, sample=('lattice', z.shape))
    rec.close('lattice', z, distance(unit(TH, PH), unit(*sun)), 0, 3e-6, what='zenith angle')
    rec.ok(np.all((z >= 0) & (z <= 180)), 'range', 'zenith angle outside [0, 180]')
    # sub-solar point and antipode, exactly and almost, at many times
    t = np.arange(FIRST, LAST, 3 if not more else 1) + 0.613
    a, b = cu.sun_position(t)
    for dth, dph, want in ((0, 0, 0.), (0, 360, 0.), (0, -360, 0.), (1e-6, 0, 1e-6), (0, 1e-9, 0.), (-3e-6, 0, 3e-6)):
        z = cu.zenith_angle(t, a+dth, b+dph)
        rec.close(f'sub:{dth}:{dph}', z, np.full(t.shape, want), 0, 3e-6, what='zenith angle at the sub-solar point')
        z = cu.zenith_angle(t, 180-a+dth, b+180+dph)
        rec.close(f'anti:{dth}:{dph}', z, np.full(t.shape, 180-want), 0, 3e-6, what='zenith angle at the antipode')
        rec.bulk(2*t.size)
    # broadcasting
    for s1, s2, s3 in itertools.product(((), (3,), (2, 1), (1, 3)), repeat=3):
        x, y, w = (np.arange(int(np.prod(s))).reshape(s)*k + c for s, k, c in ((s1, 300.7, -5.), (s2, 31.1, 20.), (s3, 77.7, -90.)))
        z = cu.zenith_angle(x, y, w)
        X, Y, W = np.broadcast_arrays(x, y, w)
        rec.case((s1, s2, s3))
        if rec.ok(np.shape(z) == X.shape, f'bshape:{s1}:{s2}:{s3}', f'shape {np.shape(z)}'):
            for i in np.ndindex(*X.shape):
                rec.close(f'bel:{s1}:{s2}:{s3}:{i}', np.asarray(z)[i], cu.zenith_angle(float(X[i]), float(Y[i]), float(W[i])), 0, 1e-10, what='element')


def several(rec):
    """The same times and places as scalars, in deep arrays, repeated, in other orders and as integers."""
    from chaosmagpy import coordinate_utils as cu
    from mc.large import tiled
    t = np.array([-36000.3, -0.5, 0., 0.25, 0.999, 1000.1, 7305.5, 9000.75, 12.1, 3.3, 36000.])
    th, ph = ref.lcg(11, 1, 0, 180), ref.lcg(11, 2, -400, 800)
    tiled(rec, 'sun', lambda x: tuple(cu.sun_position(x)), (t,), sizes=(1001,))
    tiled(rec, 'zenith', cu.zenith_angle, (t, th, ph), sizes=(1001,), tol=1e-11)
    for k in (360*300, -360*1000, 360*3000):
        rec.close(f'far:{k}', cu.zenith_angle(t, th, ph + k), cu.zenith_angle(t, th, ph), 0, 1e-6, 'longitude many turns away')
        rec.case(('far', k))
