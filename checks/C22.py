"""C22: decimal years and modified Julian dates."""
import itertools
from fractions import Fraction
import numpy as np
from mc import ref

PROPERTY, LEVEL = 'C22', 'exploration'
RULE = ('every day of every year in the bound at several times of day, in both directions and both conventions, with neighbours in floating '
        'point of every year boundary, compared with exact rational arithmetic on the civil calendar; consecutive results strictly '
        'increasing; all scalar/array/integer forms of the arguments.')
ASSUMPTIONS = ['equality to a few units in the last place of the larger of the two representations']


def tasks(tier):
    lo, hi = (-3000, 12000) if tier == 'thorough' else (1, 3000)
    t = [('years', dict(lo=a, hi=min(a+150, hi))) for a in range(lo, hi, 150)]
    if tier != 'thorough':
        t += [('years', dict(lo=-30, hi=1)), ('years', dict(lo=9990, hi=10010))]
    return t + [('forms', {}), ('boundary', {}), ('julian', {}), ('several', {})]


FR = np.array([0., 0.125, 0.5, 0.875])   # exact in binary


def years(rec, lo, hi):
    from chaosmagpy import data_utils as du
    prev_end = None
    for y in range(lo, hi):
        start = ref.days_from_civil(y, 1, 1)
        n = 366 if ref.is_leap(y) else 365
        days = (np.arange(n)[:, None] + FR).ravel()
        mjd = start + days
        want = y + days/n
        tol = 4*np.spacing(abs(float(y)) + 1)
        got = du.mjd_to_dyear(mjd, leap_year=True)
        rec.close(f'dyear:{y}', got, want, 0, tol, what=f'decimal years of {y}')
        rec.ok(got[0] == y, f'jan1:{y}', f'1 January {y} is {got[0]!r}')
        rec.ok(np.all(np.diff(got) > 0), f'mono:{y}', f'decimal years of {y} do not increase')
        if prev_end is not None:
            rec.ok(got[0] > prev_end, f'step:{y}', f'decimal year does not increase into {y}')
        prev_end = got[-1]
        rec.ok(np.all(np.floor(got) == y), f'floor:{y}', f'decimal years of {y} leave the year')
        back = du.dyear_to_mjd(got, leap_year=True)
        dtol = 366*2*np.spacing(abs(float(y)) + 1) + 4*np.spacing(abs(float(start)) + 400)
        rec.close(f'back:{y}', back, mjd, 0, dtol, what=f'days of {y} from decimal years')
        rec.ok(np.all(np.diff(back) > 0), f'backmono:{y}', f'days of {y} do not increase')
        # the other direction on a grid exact in binary
        fr = np.arange(0, 1024, 3)/1024
        m = du.dyear_to_mjd(y + fr, leap_year=True)
        rec.close(f'mjd:{y}', m, start + fr*n, 0, dtol, what=f'days from decimal years in {y}')
        rec.ok(m[0] == start, f'whole:{y}', f'decimal year {y} is {m[0]!r}')
        rec.close(f'there:{y}', du.mjd_to_dyear(m, leap_year=True), y + fr, 0, 2*tol, what=f'decimal years of {y} through days')
        rec.bulk(4*days.size + 2*fr.size, sample=('year', y))
        for k in (0, 58, n-1):
            a, b = du.mjd_to_dyear(float(start + k)), du.dyear_to_mjd(float(y + k/n))
            rec.ok(abs(float(a) - (y + k/n)) <= tol, f'sc:{y}:{k}', f'default mjd_to_dyear({start+k}) = {a}')
            rec.ok(abs(float(b) - (start + k)) <= dtol, f'scb:{y}:{k}', f'default dyear_to_mjd({y+k/n}) = {b}')
            rec.bulk(2)
        j = du.mjd_to_dyear(mjd, leap_year=False)
        rec.close(f'j:{y}', j, 2000 + mjd/365.25, 1e-15, tol, what=f'Julian years in {y}')
        rec.close(f'jb:{y}', du.dyear_to_mjd(j, leap_year=False), mjd, 0, dtol, what=f'Julian years back in {y}')
        rec.bulk(2*mjd.size)


def boundary(rec):
    """Floating point neighbours of the turn of each year, both directions."""
    from chaosmagpy import data_utils as du
    for y in list(range(-20, 40)) + list(range(1580, 2300)) + [9999, 10000]:
        s = float(ref.days_from_civil(y, 1, 1))
        n0, n1 = (366 if ref.is_leap(k) else 365 for k in (y-1, y))
        pts = [s]
        lo = hi = s
        for _ in range(3):
            lo, hi = np.nextafter(lo, -np.inf), np.nextafter(hi, np.inf)
            pts += [lo, hi]
        for e in (1e-9, 1e-6, 1e-3, 0.5):
            pts += [s-e, s+e]
        pts = np.array(sorted(pts))
        d = du.mjd_to_dyear(pts)
        want = np.array([float(y + Fraction(float(p - s))/(n1 if p >= s else n0)) for p in pts])
        rec.close(f'near:{y}', d, want, 0, 4*np.spacing(abs(float(y)) + 1), what=f'decimal years near 1 January {y}')
        rec.ok(np.all(np.diff(d) >= 0), f'order:{y}', f'decimal years near 1 January {y} are out of order: {d}')
        q = [float(y)]
        lo = hi = float(y)
        for _ in range(3):
            lo, hi = np.nextafter(lo, -np.inf), np.nextafter(hi, np.inf)
            q += [lo, hi]
        q = np.array(sorted(q))
        m = du.dyear_to_mjd(q)
        want = np.array([float(s + (Fraction(float(p)) - y)*(n1 if p >= y else n0)) for p in q])
        rec.close(f'dnear:{y}', m, want, 0, 4*np.spacing(abs(s) + 1), what=f'days near decimal year {y}')
        rec.ok(np.all(np.diff(m) >= 0), f'dorder:{y}', f'days near decimal year {y} are out of order')
        rec.bulk(pts.size + q.size, sample=y)
        for p in pts:   # alone or in an array: the same
            rec.ok(float(du.mjd_to_dyear(float(p))) == float(d[np.where(pts == p)[0][0]]), f'alone:{y}:{p!r}', f'mjd_to_dyear({p!r})')
            rec.bulk(1)


def julian(rec):
    from chaosmagpy import data_utils as du
    for k in range(-4000, 4001):
        y = 2000 + k/4
        m = float(du.dyear_to_mjd(y, leap_year=False))
        rec.ok(abs(m - k*365.25/4) <= 1e-9, f'j:{k}', f'dyear_to_mjd({y}, False) = {m}')
        rec.ok(abs(float(du.mjd_to_dyear(m, leap_year=False)) - y) <= 1e-11, f'jb:{k}', f'mjd_to_dyear({m}, False)')
        rec.bulk(2)


def forms(rec):
    from chaosmagpy import data_utils as du
    t = [-0.5, 1999.25, 2000., 2000.999, 1899.5, 1600., 1601.75]
    d = [-36525., -0.25, 0., 365.75, 366., 8000.5, -150000.]
    for leap in (True, False, 1, 0, None, np.True_, np.False_):
        kw = {} if leap is None else dict(leap_year=leap)
        for f, x in ((du.dyear_to_mjd, t), (du.mjd_to_dyear, d)):
            one = np.array([float(f(v, **kw)) for v in x])
            eff = True if leap is None else bool(leap)
            for v, o in zip(x, one):
                if f is du.dyear_to_mjd:
                    y = int(np.floor(v))
                    w = ref.days_from_civil(y, 1, 1) + (v-y)*(366 if ref.is_leap(y) else 365) if eff else (v-2000)*365.25
                else:
                    y = 2000 + int(v//365.25)
                    y += 1 if v >= ref.days_from_civil(y+1, 1, 1) else 0
                    y -= 1 if v < ref.days_from_civil(y, 1, 1) else 0
                    w = y + (v - ref.days_from_civil(y, 1, 1))/(366 if ref.is_leap(y) else 365) if eff else 2000 + v/365.25
                rec.ok(abs(o - w) < 1e-9, f'{f.__name__}:{leap}:{v}', f'{f.__name__}({v}, {leap}) = {o}, expected {w}')
                rec.case((f.__name__, str(leap), v))
            for g in (list, tuple, np.array, lambda a: np.array(a).reshape(7, 1), lambda a: np.array([a, a]), lambda a: np.array(a)[::-1][::-1]):
                a = g(x)
                try:
                    got = np.asarray(f(a, **kw))
                except Exception as e:
                    if isinstance(a, np.ndarray):
                        rec.fail(f'{f.__name__}:{leap}:arr', f'{e!r}')
                    continue
                rec.ok(got.shape == np.shape(a) and np.array_equal(got.ravel()[:7], one), f'{f.__name__}:{leap}:{np.shape(a)}:{type(a).__name__}', f'{f.__name__} of {a!r} = {got!r}')
                rec.case((f.__name__, str(leap), str(np.shape(a)), type(a).__name__))
            for dt in (int, np.int32, np.float32):
                a = np.array([1999, 2000, 2003]).astype(dt)
                rec.close(f'{f.__name__}:{leap}:{dt.__name__}', f(a, **kw), f(a.astype(float), **kw), 0, 1e-3 if dt is np.float32 else 0, what=f'{f.__name__} of {dt.__name__}')
                rec.close(f'{f.__name__}:{leap}:{dt.__name__}:0', np.asarray(f(a[1], **kw), float), float(f(float(a[1]), **kw)), 0, 1e-3 if dt is np.float32 else 0, what=f'{f.__name__} of a {dt.__name__}')
                rec.case((f.__name__, str(leap), dt.__name__))
            a = np.array(x)
            b = a.copy()
            f(a, **kw)
            rec.ok(np.array_equal(a, b), f'{f.__name__}:mutates', 'argument modified')


def several(rec):
    """The same years and days as scalars, in deep arrays, repeated, in other orders and as integers."""
    from chaosmagpy import data_utils as du
    from mc.large import tiled
    t = np.array([-0.5, 1999.25, 2000., 2000.999, 1899.5, 1600., 1601.75, 2024., 9999.5, 5., 2023.99999])
    d = np.array([-36525., -0.25, 0., 365.75, 366., 8000.5, -150000., 1e6, 730., 1.5, -730486.])
    for leap in (True, False, None):
        tiled(rec, f'y:{leap}', lambda x: du.dyear_to_mjd(x, leap_year=leap), (t,), sizes=(1001,), tol=0)
        tiled(rec, f'd:{leap}', lambda x: du.mjd_to_dyear(x, leap_year=leap), (d,), sizes=(1001,), tol=0)
