"""C21: calendar dates and modified Julian dates."""
import datetime as dt
import itertools
from fractions import Fraction
import numpy as np
from mc import ref

PROPERTY, LEVEL = 'C21', 'exploration'
RULE = ('every calendar day of the years in the bound (forward and back), every combination of boundary clock fields on boundary days, every '
        'invalid day/month combination of leap and common years, every input type and every pair of broadcastable shapes, and the limits '
        'of each date-time representation, compared with integer calendar arithmetic.')
ASSUMPTIONS = ['the result is a double: sub-day fractions are compared to one unit in the last place of the day number']


def tasks(tier):
    lo, hi = (-4800, 20000) if tier == 'thorough' else (1, 4200)
    step = 200
    t = [('calendar', dict(lo=a, hi=min(a+step, hi))) for a in range(lo, hi, step)]
    if tier != 'thorough':
        t += [('calendar', dict(lo=-10, hi=1)), ('calendar', dict(lo=9980, hi=10020))]
    return t + [('clock', dict(part=i)) for i in range(8)] + [('invalid', {}), ('types', {}), ('shapes', {}), ('limits', {}), ('leap', {}), ('fine', {}), ('many', {})]


def year_days(y):
    n = [31, 29 if ref.is_leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    m = np.repeat(np.arange(1, 13), n)
    d = np.concatenate([np.arange(1, k+1) for k in n])
    return m, d


def calendar(rec, lo, hi):
    from chaosmagpy import data_utils as du
    for y in range(lo, hi):
        m, d = year_days(y)
        first = ref.days_from_civil(y, 1, 1)
        want = first + np.arange(m.size, dtype=float)
        if not rec.close(f'day:{y}', du.mjd2000(np.full(m.size, y), m, d), want, rtol=0, atol=0, what=f'days of year {y}'):
            continue
        ts = du.timestamp(want)
        s = np.datetime_as_string(ts.astype('datetime64[D]'))
        txt = [f'{y:04d}-{a:02d}-{b:02d}' for a, b in zip(m, d)]
        bad = [i for i in range(m.size) if s[i] != txt[i]]
        rec.ok(not bad, f'back:{y}', f'timestamp of day {txt[bad[0]] if bad else ""} is {s[bad[0]] if bad else ""}')
        rec.ok(np.all(ts == ts.astype('datetime64[D]')), f'midnight:{y}', f'timestamps of whole days in {y} are not midnight')
        rec.bulk(2*m.size, sample=('year', y))
        for i in (0, 58, 59, 60, m.size-1):   # scalars
            a, b = int(m[i]), int(d[i])
            rec.ok(float(du.mjd2000(y, a, b)) == want[i], f'scalar:{y}:{a}:{b}', f'mjd2000({y},{a},{b}) = {du.mjd2000(y, a, b)}')
            got = du.timestamp(want[i])
            rec.ok(str(got.astype('datetime64[D]')) == txt[i], f'scalarback:{y}:{a}:{b}', f'timestamp({want[i]}) = {got}')
            v = [np.datetime64(txt[i], u) for u in ('D', 'h', 's', 'ms', 'us')]
            if 1678 <= y <= 2261:
                v.append(np.datetime64(txt[i], 'ns'))
            if 1 <= y <= 9999:
                v.append(dt.datetime(y, a, b))
            for x in v:
                rec.ok(float(du.mjd2000(x)) == want[i], f'obj:{y}:{a}:{b}:{getattr(x, "dtype", "dt")}', f'mjd2000({x!r}) = {du.mjd2000(x)}')
            rec.bulk(2 + len(v))
        if y == lo:
            rec.ok(float(du.mjd2000(y)) == first and float(du.mjd2000(y, 3)) == ref.days_from_civil(y, 3, 1), f'default:{y}', 'month and day default to 1')


CLOCK = dict(hour=(0, 1, 12, 23), minute=(0, 1, 59), second=(0, 1, 59), microsecond=(0, 1, 999999), nanosecond=(0, 1, 999))
DAYS = [(1583, 1, 1), (1677, 9, 21), (1677, 9, 20), (1858, 11, 17), (1900, 2, 28), (1969, 12, 31), (1970, 1, 1), (1999, 12, 31), (2000, 1, 1),
        (2000, 2, 29), (2000, 12, 31), (2016, 2, 29), (2100, 2, 28), (2261, 12, 31), (2262, 4, 11), (2262, 4, 12), (9999, 12, 31), (1, 1, 1)]


def clock(rec, part):
    from chaosmagpy import data_utils as du
    combos = list(itertools.product(*CLOCK.values()))
    arr = np.array(combos)
    for (y, m, d) in DAYS[part::8]:
        day = ref.days_from_civil(y, m, d)
        got = du.mjd2000(y, m, d, *arr.T)
        rec.ok(np.shape(got) == (len(combos),), f'shape:{y}', 'shape of clock array')
        for i, (h, mi, s, us, ns) in enumerate(combos):
            x = Fraction(((h*60 + mi)*60 + s)*10**9 + us*1000 + ns, 86400*10**9)
            want = day + x
            ulp = np.spacing(abs(float(want)) + 1)
            g = float(got[i])
            key = (y, m, d, h, mi, s, us, ns)
            if not rec.ok(abs(Fraction(g) - want) <= Fraction(float(ulp)), f'clock:{key}', f'mjd2000{key} = {g!r}, expected {float(want)!r}'):
                break
            if i % 7 == 0:
                one = float(du.mjd2000(*key))
                rec.ok(one == g, f'one:{key}', f'scalar mjd2000{key} = {one!r} but {g!r} in an array')
                if ns == 0 and y >= 1:
                    obj = dt.datetime(y, m, d, h, mi, s, us)
                    o = float(du.mjd2000(obj))
                    rec.ok(abs(Fraction(o) - want) <= Fraction(float(ulp)), f'dt:{key}', f'mjd2000({obj}) = {o!r}')
                    a = du.mjd2000(np.array([obj, obj]))
                    rec.ok(a.shape == (2,) and np.all(a == o), f'dtarr:{key}', f'array of datetimes: {a}')
                    t64 = np.datetime64(obj, 'us')
                    rec.ok(float(du.mjd2000(t64)) == o, f'dt64:{key}', f'mjd2000({t64!r})')
            # and back: within the resolution of the double and of the representation
            ts = du.timestamp(g)
            tick = (ts.astype('datetime64[us]') - np.datetime64('2000-01-01T00:00:00', 'us')).astype(int)
            if str(ts.dtype) == 'datetime64[ns]':
                sub = Fraction(int((ts - np.datetime64('2000-01-01', 'ns')).astype(int)), 86400*10**9)
                tol = Fraction(float(ulp)) + Fraction(3, 86400*10**9)
            else:
                sub = Fraction(int(tick), 86400*10**6)
                tol = Fraction(float(ulp)) + Fraction(2, 86400*10**6)
            rec.ok(abs(sub - Fraction(g)) <= tol, f'ts:{key}', f'timestamp({g!r}) = {ts}')
            rec.case(key)
        rec.ok(1678 <= y <= 2261 or np.all(np.abs(du.timestamp(got).astype('datetime64[D]').astype(int) + ref.days_from_civil(1970, 1, 1) - day) <= 1), f'far:{y}', f'far dates {y}')
        both = du.timestamp(np.array([0., float(day)]))
        rec.ok(str(both[0].astype('datetime64[s]')) == '2000-01-01T00:00:00' and str(both[1].astype('datetime64[D]')) == f'{y:04d}-{m:02d}-{d:02d}', f'mixed:{y}', f'{both}')


def invalid(rec):
    from chaosmagpy import data_utils as du
    for y in (1900, 1999, 2000, 2001, 2004, 2100, 4):
        n = [31, 29 if ref.is_leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
        for m in range(-1, 15):
            for d in list(range(-1, 34)) + [99, 100]:
                good = 1 <= m <= 12 and 1 <= d <= n[m-1]
                key = (y, m, d)
                if good:
                    rec.ok(float(du.mjd2000(y, m, d)) == ref.days_from_civil(y, m, d), f'good:{key}', f'{key}')
                else:
                    rec.raises(f'bad:{key}', Exception, du.mjd2000, y, m, d, what=f'date {key}')
                    rec.raises(f'badarr:{key}', Exception, du.mjd2000, np.array([2000, y]), np.array([1, m]), np.array([1, d]), what=f'date {key} in an array')
                rec.case(key)
    for key in ((2000.5, 1, 1), (2000, 1.5, 1), (2000, 1, 2.5), ('x', 1, 1), (float('nan'), 1, 1)):
        rec.raises(f'type:{key}', Exception, du.mjd2000, *key, what=f'date {key}')
        rec.case(key)


def types(rec):
    from chaosmagpy import data_utils as du
    ymd = [(1999, 2, 28), (2000, 12, 31), (2024, 2, 29)]
    want = np.array([ref.days_from_civil(*k) for k in ymd], float)
    for t in (int, np.int16, np.int32, np.int64, np.uint16, np.uint64, list, tuple):
        if t in (list, tuple):
            a = [t(x) for x in zip(*ymd)]
        else:
            a = [np.array(x, dtype=t) for x in zip(*ymd)]
        rec.close(f'arr:{t.__name__}', du.mjd2000(*a), want, 0, 0, what=f'arrays of {t.__name__}')
        rec.case(('arr', t.__name__))
        if t not in (list, tuple):
            for k, w in zip(ymd, want):
                rec.ok(float(du.mjd2000(*[t(x) for x in k])) == w, f'sc:{t.__name__}:{k}', f'{t.__name__} scalars')
                rec.case(('sc', t.__name__, k))
    objs = [dt.datetime(*k) for k in ymd]
    for f in (list, tuple, np.array, lambda x: np.array(x, dtype='datetime64[s]'), lambda x: np.array(x, dtype='datetime64[ns]'), lambda x: np.array(x, dtype='datetime64[D]'),
              lambda x: np.array(x, dtype=object)):
        rec.close(f'obj:{f}', du.mjd2000(f(objs)), want, 0, 0, what='datetime sequences')
        rec.case(('obj', str(f)[:20], len(rec.keys)))
    for x in (5, 5., np.int32(5), np.float32(5), [5], (5,), np.array(5), np.array([[5]]), np.array([5], np.int64)):
        ts = np.asarray(du.timestamp(x))
        rec.ok(ts.shape == np.shape(x) and np.all(ts == np.datetime64('2000-01-06')), f'ts:{x!r}', f'timestamp({x!r}) = {ts!r}')
        rec.case(('ts', repr(x)))
    rec.ok(np.isnat(du.timestamp(np.array([0., np.nan])))[1], 'nan', 'timestamp of not-a-number')
    kw = dict(year=2000, month=2, day=29, hour=6, minute=0, second=0)
    rec.ok(float(du.mjd2000(**kw)) == 59.25, 'keywords', 'keyword arguments')


def shapes(rec):
    from chaosmagpy import data_utils as du
    S = [(), (1,), (2,), (3, 1), (3, 2), (1, 2), (1, 1), (2, 3, 2), (3,)]
    for s1, s2, s3 in itertools.product(S, repeat=3):
        try:
            shape = np.broadcast_shapes(s1, s2, s3)
        except ValueError:
            shape = None
        y = 1996 + np.arange(int(np.prod(s1)), dtype=int).reshape(s1)
        m = 1 + np.arange(int(np.prod(s2)), dtype=int).reshape(s2) % 12
        h = np.arange(int(np.prod(s3)), dtype=int).reshape(s3) % 24
        f = lambda: du.mjd2000(y, m, 28, h)
        key = (s1, s2, s3)
        rec.case(key)
        if shape is None:
            rec.raises(f'shape:{key}', ValueError, f, what=f'shapes {key}')
            continue
        Y, M, H = np.broadcast_arrays(y, m, h)
        want = np.array([ref.days_from_civil(int(a), int(b), 28) + int(c)/24 for a, b, c in zip(Y.ravel(), M.ravel(), H.ravel())], float).reshape(shape)
        rec.close(f'shape:{key}', f(), want, 0, 1e-11, what=f'shapes {key}')
        ts = np.asarray(du.timestamp(want))
        rec.ok(ts.shape == shape, f'tshape:{key}', f'timestamp shape {ts.shape}')


def limits(rec):
    """Dates at and beyond the ends of each representation: right or refused."""
    from chaosmagpy import data_utils as du
    days = sorted({s*(base + k) for s in (-1, 1) for base in (0, 95000, 95633, 106751, 10**6, 10**7, 10**8, 106751991, 107*10**6, 10**9, 2**31, 2**40, 2**53, 2**62, 2**63) for k in (-2, -1, -0.5, 0, 0.25, 0.5, 1, 2)})
    for x in days:
        for form in (float(x), np.array([x, 0.], float)):
            rec.case((repr(form),))
            try:
                ts = np.atleast_1d(np.asarray(du.timestamp(form)))[0]
            except Exception:
                rec.ok(abs(x) > 10**8, f'refused:{x}', f'timestamp({x}) is refused')
                continue
            if np.isnat(ts):
                rec.ok(abs(x) > 10**8, f'nat:{x}', f'timestamp({x}) is not a time')
                continue
            unit = str(ts.dtype)
            per = {'datetime64[ns]': 86400*10**9, 'datetime64[us]': 86400*10**6, 'datetime64[s]': 86400, 'datetime64[ms]': 86400000}.get(unit)
            if per is None:
                rec.fail(f'unit:{x}', f'timestamp({x}) has type {unit}')
                continue
            got = Fraction(int(ts.astype(np.int64)), per) + ref.days_from_civil(1970, 1, 1)
            rec.ok(abs(got - Fraction(float(x))) <= Fraction(2, per) + Fraction(float(np.spacing(abs(float(x))))), f'limit:{x}', f'timestamp({x}) = {ts}')
    for y in (-300000, -9999, 0, 1, 30000, 300000, 10**6, 10**7):
        rec.case(('year', y))
        rec.ok(float(du.mjd2000(y, 3, 1)) == ref.days_from_civil(y, 3, 1), f'year:{y}', f'mjd2000({y},3,1) = {du.mjd2000(y, 3, 1)}')
    rec.ok(np.isnan(du.mjd2000(np.datetime64('NaT'))), 'nat', 'mjd2000 of not-a-time')
    for v in (np.datetime64('9999-12-31T23:59:59', 's'), np.datetime64('200000-01-01', 'D'), np.datetime64('-20000-01-01', 'D')):
        y = int(v.astype('datetime64[Y]').astype(int)) + 1970
        w = ref.days_from_civil(y, 12, 31) + 86399/86400 if y == 9999 else ref.days_from_civil(y, 1, 1)
        rec.ok(abs(float(du.mjd2000(v)) - w) < 1e-8, f'dt64:{v}', f'mjd2000({v!r}) = {du.mjd2000(v)}')
        rec.case(str(v))


def leap(rec):
    from chaosmagpy import data_utils as du
    y = np.arange(-10000, 20001)
    want = np.array([ref.is_leap(int(k)) for k in y])
    for t in (np.int16, np.int32, np.int64):
        got = du.is_leap_year(y.astype(t) if t is not np.int16 else y.astype(t))
        rec.ok(np.array_equal(got, want), f'leap:{t.__name__}', 'leap years')
        rec.bulk(y.size)
    rec.ok(np.array_equal(du.is_leap_year(y[y >= 0].astype(np.uint32)), want[y >= 0]), 'leap:unsigned', 'unsigned years')
    for k in (1899, 1900, 2000, 2004, 2100, -4, 0):
        for t in (int, np.int32, np.int64):
            rec.ok(bool(du.is_leap_year(t(k))) == ref.is_leap(k), f'leapsc:{k}:{t.__name__}', f'is_leap_year({k})')
            rec.case((k, t.__name__))
    for bad in (2000., np.array([2000.]), np.float32(1999), 'x'):
        rec.raises(f'leapbad:{bad!r}', TypeError, du.is_leap_year, bad, what='non-integer year')
        rec.case(repr(bad))


def fine(rec):
    """Nanoseconds near the epoch survive both ways, alone and in arrays."""
    from chaosmagpy import data_utils as du
    k = sorted({*range(0, 400, 7), 401, 499, 500, 501, 999, 1000, 1001, 1234, 500500, 999999, 1000499, 123456789, 86399*10**9 + 123})
    t = np.array(k)/86400e9
    one = [du.timestamp(x) for x in t]
    for name, ts in (('array', du.timestamp(t)), ('scalar', np.array(one)), ('column', du.timestamp(t[:, None])[:, 0]), ('before', du.timestamp(-t))):
        ns = (ts.astype('datetime64[ns]') - np.datetime64('2000-01-01', 'ns')).astype(int)*(-1 if name == 'before' else 1)
        rec.ok(np.all(np.abs(ns - k) <= 1), f'fine:{name}', f'nanoseconds {ns[np.argmax(np.abs(ns-k))]} instead of {k[np.argmax(np.abs(ns-k))]}')
        rec.bulk(len(k))
    back = np.array([float(du.mjd2000(2000, 1, 1, 0, 0, 0, 0, x)) for x in k[:40]])
    rec.close('fine:mjd', back, t[:40], 1e-12, 0, what='nanoseconds since the epoch')


def many(rec):
    """Long arrays."""
    from chaosmagpy import data_utils as du
    from mc.large import tiled
    y = np.array([1583, 1677, 1900, 1999, 2000, 2000, 2016, 2100, 2262, 9999, 1])
    m = np.array([1, 9, 2, 12, 1, 2, 2, 3, 4, 12, 1])
    d = np.array([1, 20, 28, 31, 1, 29, 29, 1, 12, 31, 1])
    h = np.array([0, 23, 12, 1, 0, 6, 7, 8, 9, 10, 11])
    tiled(rec, 'mjd', du.mjd2000, (y, m, d, h), tol=0)
    t = du.mjd2000(y, m, d, h)
    tiled(rec, 'obj', du.mjd2000, (np.array([f'{a:04d}-{b:02d}-{c:02d}T{e:02d}' for a, b, c, e in zip(y, m, d, h)], dtype='datetime64[s]'),), tol=0)
    tiled(rec, 'ts', lambda x: du.timestamp(x).astype('datetime64[us]').astype(np.int64).astype(float), (t,), tol=0)
    near = t[2:8] + 0.123456
    tiled(rec, 'tsn', lambda x: du.timestamp(x).astype('datetime64[us]').astype(np.int64).astype(float), (near,), tol=0)
    tiled(rec, 'leap', lambda x: du.is_leap_year(x).astype(float), (y,), tol=0)
