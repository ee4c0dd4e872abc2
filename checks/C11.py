"""C11: calling the model sums the requested sources."""
import itertools
import numpy as np
from mc import ref, fixture

PROPERTY, LEVEL = 'C11', 'exploration'
RULE = ('every ordered selection of the four sources, every container type and shorthand, RC values given as every combination of absent, scalar '
        'and array, every static degree, and every tuple of broadcastable shapes of time, radius, colatitude and longitude up to the bound; the result is '
        'compared with the sum of independently evaluated sources (60-digit harmonics, defining formulas); every selection on a model that has only '
        'the selected parts.')
ASSUMPTIONS = []
SRC = ('tdep', 'static', 'gsm', 'sm')
PTS = [(-300.5, 6371.2, 0., 10.), (0.25, 7000., 90., -120.), (120., 6700.5, 143.3, 200.), (385., 6371.2, 180., 0.)]


def selections():
    out = []
    for n in range(1, 5):
        out += list(itertools.permutations(SRC, n))
    return out


def tasks(tier):
    out = [('select', dict(form=f)) for f in ('list', 'tuple', 'str', 'only')]
    out += [('rc', dict(time=t)) for t in (0.25, 120.)] + [('nstatic', {}), ('shorthand', {})]
    k = 4
    out += [('shapes', dict(part=i, of=k, more=tier == 'thorough')) for i in range(k)] + [('refuse', {}), ('verbose', {}), ('repeated', {}), ('many', {})]
    return out


def source_field(name, t, r, th, ph, rc_e=None, rc_i=None, nstatic=85, k=None):
    from checks.C12 import expected_sm
    k = k or fixture.kwargs()
    if name == 'tdep':
        c = ref.pp_eval(k['coeffs_tdep'], k['breaks'], t)
        return ref.field(c, ref.nm_list(1, 3), r, th, ph)
    if name == 'static':
        n = min(nstatic, 5)
        return ref.field(k['coeffs_static'].ravel()[:n*(n+2)], ref.nm_list(1, n), r, th, ph)
    nms = ref.nm_list(1, 2)
    if name == 'gsm':
        return sum(ref.field(fixture.rotation(t, 'gsm', s == 'internal') @ k['coeffs_gsm'], nms, r, th, ph, source=s) for s in ('external', 'internal'))
    rc = [fixture.rc_value(t, s) if v is None else v for s, v in (('external', rc_e), ('internal', rc_i))]
    return sum(ref.field(expected_sm(t, s, k['coeffs_sm'], v, k), nms, r, th, ph, source=s) for s, v in zip(('external', 'internal'), rc))


def no_rc(rec):
    """Configured RC file that has vanished."""
    import os
    name = rec.tmp('gone.h5')
    fixture.use_rc(name)
    os.remove(name)


_cache = {}


def want(names, t, r, th, ph, **kw):
    out = np.zeros(3)
    for n in dict.fromkeys(names):
        key = (n, t, r, th, ph, tuple(sorted(kw.items())))
        if key not in _cache:
            _cache[key] = source_field(n, t, r, th, ph, **kw)
        out = out + _cache[key]
    return out


def check(rec, fid, m, names, arg, t, r, th, ph, kw=None, exp=None):
    got = m(t, r, th, ph, source_list=arg, **(kw or {}))
    T, R, TH, PH = np.broadcast_arrays(t, r, th, ph)
    w = np.empty((3,) + T.shape)
    for i in np.ndindex(*T.shape):
        w[(slice(None),) + i] = want(names, float(T[i]), float(R[i]), float(TH[i]), float(PH[i]), **(exp or {}))
    rec.case(fid)
    rec.ok(len(got) == 3, f'three:{fid}', 'not three components')
    rec.close(f'sum:{fid}', np.array(got), w, 1e-9, 1e-7, what=f'sum of {names}')


def select(rec, form):
    fixture.use_rc(rec.tmp('rc.h5'))
    t, r, th, ph = (np.array(x) for x in zip(*PTS))
    m = fixture.model()
    for names in selections():
        if form == 'str' and len(names) > 1:
            continue
        arg = {'list': list, 'tuple': tuple, 'str': lambda x: x[0], 'only': list}[form](names)
        keep = list(names)
        if form == 'only':
            m = fixture.model(parts=names)      # nothing else is needed
            if 'sm' not in names:
                no_rc(rec)
            else:
                fixture.use_rc(rec.tmp('rc.h5'))
        check(rec, f'{form}:{names}', m, names, arg, t, r, th, ph)
        rec.ok(form == 'str' or list(arg) == keep, f'list:{form}:{names}', 'source list modified')


def shorthand(rec):
    fixture.use_rc(rec.tmp('rc.h5'))
    m = fixture.model()
    t, r, th, ph = (np.array(x) for x in zip(*PTS))
    for arg, names in ((None, SRC), ('internal', ('tdep', 'static')), ('external', ('gsm', 'sm')), ('tdep', ('tdep',)), ('sm', ('sm',))):
        check(rec, f'short:{arg}', m, names, arg, t, r, th, ph)
        for p in PTS:
            check(rec, f'short:{arg}:{p}', m, names, arg, *p)
    got = m(*PTS[1])
    rec.close('default', np.array(got), want(SRC, *PTS[1]), 1e-9, 1e-7, what='default sources')
    for parts, arg in ((('tdep', 'static'), 'internal'), (('gsm', 'sm'), 'external')):
        check(rec, f'part:{arg}', fixture.model(parts=parts), parts, arg, t, r, th, ph)


def rc(rec, time):
    fixture.use_rc(rec.tmp('rc.h5'))
    m = fixture.model()
    for a, b in itertools.product((None, 0., -21.5, 8), repeat=2):
        for names in (('sm',), ('gsm', 'sm'), SRC):
            kw = dict(rc_e=a, rc_i=b)
            check(rec, f'rc:{time}:{a}:{b}:{names}', m, names, list(names), time, 6800., 35., 70., kw=kw, exp=kw)
            arr = {q: None if v is None else np.array([v, v]) for q, v in kw.items()}
            check(rec, f'rca:{time}:{a}:{b}:{names}', m, names, list(names), np.array([time, time]), 6800., 35., 70., kw=arr, exp=kw)
    # RC values per time
    e, i = np.array([1., -20., 7.5]), np.array([3., 0., -11.])
    t = np.array([time, 10., -300.5])
    keep = e.copy(), i.copy()
    got = np.array(m(t, 6800., 35., 70., rc_e=e, rc_i=i))
    w = np.array([want(SRC, float(x), 6800., 35., 70., rc_e=float(y), rc_i=float(z)) for x, y, z in zip(t, e, i)]).T
    rec.close(f'per:{time}', got, w, 1e-9, 1e-7, what='RC value per time')
    rec.ok(np.array_equal(keep[0], e) and np.array_equal(keep[1], i), f'mut:{time}', 'RC arrays modified')
    # supplied RC values make the file unnecessary
    no_rc(rec)
    got = np.array(m(t, 6800., 35., 70., rc_e=e, rc_i=i))
    rec.close(f'nofile:{time}', got, w, 1e-9, 1e-7, what='supplied RC values without file')
    rec.raises(f'needfile:{time}', Exception, m, t, 6800., 35., 70., rc_e=e, what='missing RC file')


def nstatic(rec):
    m = fixture.model(ns=5)
    t, r, th, ph = (np.array(x) for x in zip(*PTS))
    for n in (None, 1, 3, 4, 5, 6, 85):
        for names in (('static',), ('tdep', 'static')):
            check(rec, f'n:{n}:{names}', m, names, list(names), t, r, th, ph, kw=dict(nmax_static=n), exp=dict(nstatic=85 if n is None else n))

    # a static part beyond the default degree
    from chaosmagpy import model_utils as mu
    from chaosmagpy.chaos import CHAOS
    for top in (85, 86, 90, 110):
        c = ref.lcg(top*(top+2), 3, -5, 5)
        big = CHAOS(np.array([0., 0.]), coeffs_static=c, name='S')
        for n in (None, 84, 85, 86, 90, 100, 110, 111, 133):
            k = min(85 if n is None else n, top)
            for q in (PTS[1:3], PTS[:1]):
                a, b, d = (np.array(x) for x in list(zip(*q))[1:])
                got = big(0., a, b, d, nmax_static=n, source_list='static')
                w = mu.synth_values(c[:k*(k+2)], a, b, d)
                rec.close(f'big:{top}:{n}:{len(q)}', np.array(got), np.array(w), 1e-9, 1e-6, what=f'static part to degree {n} of {top}')
                rec.case(('big', top, n, len(q)))


SH = ((), (1,), (2,), (3, 1), (1, 2), (3, 2))


def shapes(rec, part, of, more):
    fixture.use_rc(rec.tmp('rc.h5'))
    m = fixture.model()
    vals = [[-300.5, 0.25, 385.], [6371.2, 7000.], [0., 90., 143.3], [-120., 200.]]
    combos = list(itertools.product(SH, repeat=4))[part::of]
    for sh in combos:
        args = [np.resize(np.array(v), s) if s else np.float64(v[0]) for v, s in zip(vals, sh)]
        names = SRC if len(set(sh)) < 4 or more else ('static', 'gsm')
        try:
            out = np.broadcast_shapes(*sh)
        except ValueError:
            rec.raises(f'refuse:{sh}', ValueError, m, *args, what=f'shapes {sh}')
            rec.case(sh)
            continue
        keep = [np.copy(a) for a in args]
        check(rec, f'shape:{sh}', m, names, list(names), *args)
        rec.ok(all(np.array_equal(a, b) for a, b in zip(keep, args)), f'mut:{sh}', 'arguments modified')
    if part == 0:
        check(rec, 'lists', m, SRC, list(SRC), [-300, 0], 6800, [[10], [20]], [0, 90])
        check(rec, 'static-time', m, ('static',), ['static'], np.zeros((4, 1)), 6800., 10., np.array([1., 2., 3.]))
        got = m(np.zeros(0), 6800., 10., 20., source_list=['static'])
        rec.ok(all(x.shape == (0,) for x in got), 'empty', 'empty input')


def refuse(rec):
    """A requested source that the model lacks is an error, whatever else is requested."""
    fixture.use_rc(rec.tmp('rc.h5'))
    for n in range(0, 4):
        for parts in itertools.combinations(SRC, n):
            m = fixture.model(parts=parts)
            for names in selections():
                if set(names) - set(parts):
                    for kw in ({}, dict(verbose=True)):
                        rec.raises(f'miss:{parts}:{names}:{kw}', ValueError, m, 0., 7000., 10., 20., source_list=list(names), what=f'{names} from {parts}', **kw)
                    rec.case((parts, names))


def repeated(rec):
    """A source named several times counts once."""
    fixture.use_rc(rec.tmp('rc.h5'))
    m = fixture.model()
    t, r, th, ph = (np.array(x) for x in zip(*PTS))
    for n in (2, 3):
        for names in itertools.product(SRC, repeat=n):
            if len(set(names)) < n:
                for form in (list, tuple):
                    check(rec, f'rep:{form.__name__}:{names}', m, names, form(names), t, r, th, ph)


def verbose(rec):
    """Talking changes no value."""
    fixture.use_rc(rec.tmp('rc.h5'))
    m = fixture.model()
    t, r, th, ph = (np.array(x) for x in zip(*PTS))
    for names in selections():
        a = m(t, r, th, ph, source_list=list(names), verbose=True)
        b = m(t, r, th, ph, source_list=list(names), verbose=False)
        rec.close(f'v:{names}', np.array(a), np.array(b), 0, 0, what='verbose')
        rec.case(names)


def many(rec):
    """Many points at once, with the RC index from the file and supplied."""
    from mc.large import tiled
    fixture.use_rc(rec.tmp('rc.h5'))
    m = fixture.model()
    t, r, th, ph = (np.array(x) for x in zip(*(PTS + [(33.3, 6800., 12., 77.), (1e-4, 2e5, 100., -3.), (200.2, 6600., 170., 123.)])))
    rc = ref.lcg(7, 1, -30, 30)
    for names in (SRC, ('tdep',), ('static',), ('gsm',), ('sm',)):
        tiled(rec, f'many:{names}', lambda *a: tuple(m(*a, source_list=list(names))), (t, r, th, ph), sizes=(1001, 4097, 20000) if set(names) <= {'tdep', 'static'} else (1001, 2000), tol=1e-10)
    tiled(rec, 'many:rc', lambda a, b, c, d, e, i: tuple(m(a, b, c, d, rc_e=e, rc_i=i)), (t, r, th, ph, rc, rc[::-1]), sizes=(1001, 2000), tol=1e-10)
