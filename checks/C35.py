"""C35: elementwise functions treat every element as if it were alone."""
import contextlib
import io
import itertools
import warnings
import numpy as np
from mc import fixture, ref

PROPERTY, LEVEL = 'C35', 'exploration'
RULE = ('every elementwise public function (conversions of coordinates, vectors, frames and times, base vectors, rotation matrices, spectra, Legendre functions, coefficients of all '
        'model parts) for every tuple of broadcastable operand shapes out of a set with ranks 0 to 3, empty arrays, and for sizes around powers of two and of ten in three orders; '
        'each element is compared with the call for that element alone; with one not-a-number at every place the other elements must not change')
ASSUMPTIONS = ['values of single elements are decided by the other properties']
SHAPES = [(), (1,), (2,), (3,), (1, 1), (2, 1), (1, 3), (2, 3), (3, 1, 2), (2, 2, 3)]
SIZES = [31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 365, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 9999, 10000, 10007]
TIME = [-9000.25, -36.5, 0., 0.999, 59., 1234.5678, 7305.]
TH, THIN = [0., 1e-6, 37.5, 90., 142., 179.9, 180.], [1e-3, 12., 37.5, 90., 142., 170., 179.9]
PH = [-180., -33., 0., 90., 179.9, 271., 400.]
RAD, H = [3485., 6371.2, 6378.137, 6800., 8000., 42000., 6300.], [-10., 0., 0.5, 400., 1000., 35786., 90.]
B = [-42000., -3.5, 0., 1e-3, 17., 250., 33000.]
XYZ = [-7000., -1.5, 0.25, 3., 500., 6371.2, 1e5]


def frames():
    out = []
    for i in range(7):
        c, s = np.cos(0.9*i + 0.2), np.sin(0.9*i + 0.2)
        a, b = np.cos(1.7*i), np.sin(1.7*i)
        out.append(np.array([[c, s, 0.], [-s*a, c*a, b], [s*b, -c*b, a]]))
    return np.array(out)


def functions(rec):
    """name -> (function of arrays, pools, number of trailing and leading dimensions of each result)."""
    import chaosmagpy as cp
    cu, du, mu = cp.coordinate_utils, cp.data_utils, cp.model_utils
    fixture.use_rc(rec.tmp('rc.h5'))
    m = fixture.model()
    F = frames()
    fr, sp = np.array([0., 1., 0.0027]), (ref.lcg(27, 54, -1, 1) + 1j*ref.lcg(27, 55, -1, 1)).reshape(3, 3, 3)
    inside = [-480., -100., -99.9, 0.25, 10., 60.5, 399.]
    Y = [1899.75, 1999., 2000., 2000.9999, 2004.25, 2011.5, 2100.]
    C8 = [ref.lcg(8, 70+i, -500, 500) for i in range(7)]
    q = dict(
        sun=(cu.sun_position, [TIME], 0), zenith=(cu.zenith_angle, [TIME, TH, PH], 0), s2c=(cu.spherical_to_cartesian, [RAD, TH, PH], 0), c2s=(cu.cartesian_to_spherical, [XYZ, XYZ[::-1], XYZ[2:] + XYZ[:2]], 0),
        g2g=(cu.gg_to_geo, [H, TH], 0), g2gv=(cu.gg_to_geo, [H, TH, B, B[::-1]], 0), geo=(cu.geo_to_gg, [RAD, TH], 0), geov=(cu.geo_to_gg, [RAD, TH, B, B[::-1]], 0),
        bgg=(cu.basevectors_gg, [TH, TH[::-1]], 1), bgsm=(cu.basevectors_gsm, [TIME], 1), bsm=(cu.basevectors_sm, [TIME], 1), buse=(cu.basevectors_use, [THIN, PH], 1),
        caz=(cu.center_azimuth, [PH], 0), lt=(cu.local_time, [TIME, PH], 0), rot=(lambda t: cu.synth_rotate_gauss(t, fr, sp), [TIME], 2), rots=(lambda t: cu.synth_rotate_gauss(t, fr, sp, scaled=True), [TIME], 2),
        rg=(lambda i: cu.rotate_gauss(2, 2, *(F[i.astype(int), j] for j in range(3))), [list(range(7))], 2),
        g2b=(lambda t, p, i: cu.geo_to_base(t, p, *(F[i.astype(int), j] for j in range(3))), [TH, PH, list(range(7))], 0),
        g2bi=(lambda t, p, i: cu.geo_to_base(t, p, *(F[i.astype(int), j] for j in range(3)), inverse=True), [TH, PH, list(range(7))], 0),
        mgb=(lambda t, p, i: cu.matrix_geo_to_base(t, p, *(F[i.astype(int), j] for j in range(3)))[:2], [THIN, PH, list(range(7))], 0),
        mgbR=(lambda t, p, i: cu.matrix_geo_to_base(t, p, *(F[i.astype(int), j] for j in range(3)))[2], [THIN, PH, list(range(7))], 2),
        mjd=(lambda y, mo, d, h: du.mjd2000(y.astype(int), mo.astype(int), d.astype(int), h), [[1583, 1899, 1900, 2000, 2001, 2004, 2100], [1, 2, 3, 6, 9, 11, 12], [1, 2, 15, 27, 28, 3, 14], [0., 0.5, 12., 23., 23.99, 7., 1.]], 0),
        ts=(du.timestamp, [TIME], 0), d2m=(du.dyear_to_mjd, [Y], 0), d2mf=(lambda y: du.dyear_to_mjd(y, leap_year=False), [Y], 0), m2d=(du.mjd_to_dyear, [TIME], 0), m2df=(lambda t: du.mjd_to_dyear(t, leap_year=False), [TIME], 0),
        leap=(lambda y: du.is_leap_year(y.astype(int)), [[1600, 1900, 1999, 2000, 2004, 2023, 2100]], 0),
        leg=(lambda t: mu.legendre_poly(5, t), [TH], -2), leg1=(lambda t: mu.legendre_poly(1, t), [TH], -2), dg=(lambda r, t, p: mu.design_gauss(r, t, p, 3), [RAD, TH, PH], 1), dge=(lambda r, t, p: mu.design_gauss(r, t, p, 3, nmin=2, mmax=1, source='external'), [RAD, TH, PH], 1),
        spec=(lambda i: mu.power_spectrum(np.array(C8)[i.astype(int)], 3485.), [list(range(7))], 1), spece=(lambda i: mu.power_spectrum(np.array(C8)[i.astype(int)], 3485., source='external'), [list(range(7))], 1),
        ct=(m.synth_coeffs_tdep, [inside + [-900., 900.]], 1), ctd=(lambda t: m.synth_coeffs_tdep(t, deriv=1, nmax=2, extrapolate='constant'), [inside + [-900., 900.]], 1), cg=(m.synth_coeffs_gsm, [inside], 1), cgi=(lambda t: m.synth_coeffs_gsm(t, source='internal'), [inside], 1),
        cm=(m.synth_coeffs_sm, [inside], 1), cmi=(lambda t: m.synth_coeffs_sm(t, source='internal'), [inside], 1), cmr=(lambda t, rc: m.synth_coeffs_sm(t, rc=rc), [inside, B], 1), eu=(lambda t: m.synth_euler_angles(t, 'alpha'), [inside], 1),
        cal=(lambda t: m.model_cal['cryosat-2_1'].synth_coeffs(t), [inside], 1), vt=(m.synth_values_tdep, [inside, RAD, TH, PH], 0), vg=(lambda *a: m.synth_values_gsm(*a, source='all'), [inside, RAD, TH, PH], 0), vm=(lambda *a: m.synth_values_sm(*a, source='all'), [inside, RAD, TH, PH], 0),
        vs=(m.synth_values_static, [RAD, TH, PH], 0), call=(m, [inside, RAD, TH, PH], 0), bspec=(lambda t: m.model_tdep.power_spectrum(t, 3485.), [inside], 1),
        qr=(lambda f: cu.q_response(f, 2), [[0., 1e-8, 1e-7, 1e-6, 1e-5, 2e-5, 1e-4]], -1),
        **{f'tp{r}{i}': (lambda t, p, u, r=r, i=i: cu.transform_points(t, p, u, reference=r, inverse=i), [TH, PH, TIME], 0) for r in ('gsm', 'sm', 'mag') for i in (False, True)},
        **{f'tv{r}{i}': (lambda t, p, b, c, u, r=r, i=i: cu.transform_vectors(t, p, b, c, u, reference=r, inverse=i), [THIN, PH, B, B[::-1], TIME], 0) for r in ('gsm', 'sm', 'mag') for i in (False, True)})
    return q


NAMES = ['sun', 'zenith', 's2c', 'c2s', 'g2g', 'g2gv', 'geo', 'geov', 'bgg', 'bgsm', 'bsm', 'buse', 'caz', 'lt', 'rot', 'rots', 'rg', 'g2b', 'g2bi', 'mgb', 'mgbR', 'mjd', 'ts', 'd2m', 'd2mf', 'm2d', 'm2df', 'leap', 'leg', 'leg1', 'dg', 'dge', 'spec',
         'spece', 'ct', 'ctd', 'cg', 'cgi', 'cm', 'cmi', 'cmr', 'eu', 'cal', 'vt', 'vg', 'vm', 'vs', 'call', 'bspec', 'qr'] + [f'{v}{r}{i}' for v in ('tp', 'tv') for r in ('gsm', 'sm', 'mag') for i in (False, True)]
STEP = {9: 4}      # in order to meet all values of a pool
REFUSES = ('bgsm', 'bsm', 'sun', 'zenith', 'm2d') + tuple(f'{v}{r}{i}' for v in ('tp', 'tv') for r in ('gsm', 'sm') for i in (False, True))     # times that are not a number
SLOW, SLOWSIZES = ('call', 'vm', 'vg', 'rg', 'cmi'), [33, 64, 101, 128, 257, 500, 512, 1000, 1025, 2048, 4097]      # sizes: whole models
ONE = ('qr',)       # one-dimensional argument


def tasks(tier):
    deep = tier == 'thorough'
    return [('shapes', dict(name=n)) for n in NAMES] + [('sizes', dict(name=n, sizes=(SLOWSIZES if n in SLOW and not deep else SIZES) + ([30011, 65535, 65536, 65537, 100003] if deep and n not in SLOW else []))) for n in NAMES] + [('nans', dict(name=n)) for n in NAMES] + [('names', {})]


def quiet(f, *a):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        out = f(*a)
    return [np.asarray(x) for x in out] if isinstance(out, (tuple, list)) else [np.asarray(out)]


class One:
    """Results for single elements."""

    def __init__(self, f, pools, tail, one=False):
        self.f, self.pools, self.tail, self.d, self.one = f, [np.array(p, float) for p in pools], tail, {}, one

    def __call__(self, ix):
        if ix not in self.d:
            res = quiet(self.f, *[p[i:i+1] if self.one else p[i] for p, i in zip(self.pools, ix)])
            if self.one:
                res = [x[..., 0] for x in res]
            self.d[ix] = res
        return self.d[ix]

    def table(self, idx):
        """Expected arrays for index arrays that broadcast."""
        b = np.broadcast_arrays(*idx)
        shape = b[0].shape
        keys = np.stack([x.ravel() for x in b], axis=-1) if b[0].size else np.zeros((0, len(b)), int)
        u, inv = np.unique(keys, axis=0, return_inverse=True)
        inv = np.ravel(inv)
        cells = [self(tuple(int(i) for i in k)) for k in u]
        out = []
        for j in range(len(self(tuple(0 for _ in b)))):
            tail = self((0,)*len(b))[j].shape
            v = np.stack([c[j] for c in cells])[inv] if len(cells) else np.zeros((0,) + tail)
            v = v.reshape(shape + tail)
            if self.tail < 0:
                v = np.moveaxis(v, range(len(shape)), range(-len(shape), 0)) if len(shape) else v
            out.append(v)
        return out


def equal(rec, fid, got, want, what):
    if not rec.ok(len(got) == len(want), fid, f'{len(got)} results'):
        return
    for j, (g, w) in enumerate(zip(got, want)):
        try:       # a result may leave out dimensions it does not depend on
            g = np.broadcast_to(g, w.shape)
        except ValueError:
            rec.fail(f'{fid}:{j}', f'{what}: shape {g.shape}, expected {w.shape}')
            return
        if w.dtype.kind in 'Mb':
            rec.ok(np.array_equal(g, w), f'{fid}:{j}', f'{what}: differs')
            continue
        scale = np.abs(w[np.isfinite(w)]).max() if np.isfinite(w).any() else 0.
        rec.close(f'{fid}:{j}', g, w, 1e-11, 1e-12*scale, what=what)


def shapes(rec, name):
    f, pools, tail = functions(rec)[name]
    one = One(f, pools, tail, name in ONE)
    k = len(pools)
    S = [s for s in SHAPES if len(s) == 1] if name in ONE else SHAPES if k < 4 else SHAPES[:2] + [(3,), (2, 1), (1, 3), (2, 3)] if k < 5 else [(), (3,), (2, 1), (2, 3)]
    for combo in itertools.product(S, repeat=k):
        try:
            full = np.broadcast_shapes(*combo)
        except ValueError:
            continue
        if name == 'cmr' and full != combo[0]:
            continue        # index values go with the times
        idx = [((np.arange(int(np.prod(s, dtype=int)))*(2*j+3) + 2*j) % len(p)).reshape(s) for j, (s, p) in enumerate(zip(combo, one.pools))]
        rec.case((name, combo), nontrivial=any(combo))
        try:
            got = quiet(f, *[p[i] for p, i in zip(one.pools, idx)])
        except Exception as err:
            rec.fail(f'shapes:{name}:{combo}', f'{name} of shapes {combo}: {err!r}')
            continue
        equal(rec, f'shapes:{name}:{combo}', got, one.table(idx), f'{name} of shapes {combo}')


def sizes(rec, name, sizes):
    f, pools, tail = functions(rec)[name]
    one = One(f, pools, tail, name in ONE)
    for n in sizes:
        for order in ('sorted', 'reverse', 'mixed'):
            if order != 'mixed' and n % 10 == 9:
                continue
            idx = []
            for j, p in enumerate(one.pools):
                a = np.arange(n)
                key = np.argsort(p)[a*p.size//n] if order != 'mixed' else (a*(2*j+3) + a//11) % p.size
                idx.append(key[::-1] if order == 'reverse' else key)
            rec.case((name, n, order), n=n)
            got = quiet(f, *[p[i] for p, i in zip(one.pools, idx)])
            equal(rec, f'sizes:{name}:{n}:{order}', got, one.table(idx), f'{name} of {n} elements, {order}')
        if len(pools) > 1:       # one argument long, the others single; and an outer product
            for j in range(len(pools)):
                idx = [(np.arange(n)*3 % p.size) if i == j else np.array(2) for i, p in enumerate(one.pools)]
                if n < 1100 and (name != 'cmr' or j == 0):
                    equal(rec, f'sizes1:{name}:{n}:{j}', quiet(f, *[p[i] for p, i in zip(one.pools, idx)]), one.table(idx), f'{name}, argument {j} of {n} elements')
            if n in (33, 100, 257) and name != 'cmr':
                idx = [(np.arange(n)*3 % p.size)[:, None] if i == 0 else np.arange(41)*(i+1) % p.size for i, p in enumerate(one.pools)]
                equal(rec, f'sizes2:{name}:{n}', quiet(f, *[p[i] for p, i in zip(one.pools, idx)]), one.table(idx), f'{name}, outer product {n} by 41')


def warned(f, *a):
    """Results and texts of the warnings; the exception if refused."""
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        warnings.simplefilter('always')
        try:
            out = f(*a)
        except Exception as err:
            return None, type(err).__name__ + str(err)
    return [np.asarray(x) for x in out] if isinstance(out, (tuple, list)) else [np.asarray(out)], {str(x.message) for x in w if x.category is UserWarning}


WRONG = {'TH': (-1., 180.5), 'THIN': (0., 180.), 'time': (-9000., 9000.)}     # values that are refused, or accepted with a warning


def wrong(p):
    """Values for an argument of this pool that are refused or warned about."""
    return {7: {0.: WRONG['TH'], 1e-3: WRONG['THIN']}.get(p[0], ())}.get(len(p), ()) if p[0] != -480. else WRONG['time']


def nans(rec, name):
    """A value that is not a number spoils at most its own element, and hides nothing about the others."""
    f, pools, tail = functions(rec)[name]
    one = One(f, pools, tail, name in ONE)
    for n in (2, 3, 6, 40):
        for j in range(len(pools)):
            if name in ('rg', 'spec', 'spece') or name in ('g2b', 'g2bi', 'mgb', 'mgbR') and j == 2 or name in ('mjd', 'leap'):
                continue
            for at in range(n if n < 40 else 1):
                idx = [(np.arange(n)*STEP.get(p.size, 2*i+3) + i + at) % p.size for i, p in enumerate(one.pools)]
                a = [p[i] for p, i in zip(one.pools, idx)]
                full, said0 = warned(f, *a)
                sub, said1 = warned(f, *[np.delete(x, at) for x in a])
                a[j] = a[j].copy()
                a[j][at] = np.nan
                rec.case((name, n, j, at))
                fid = f'nans:{name}:{n}:{j}:{at}'
                got, said = warned(f, *a)
                if not rec.ok(full is not None, fid, f'refused without not-a-numbers: {said0}'):
                    continue
                if got is None:
                    rec.ok(sub is None or name in REFUSES, fid, f'{name} refuses a not-a-number: {said}')
                    continue
                rec.ok(said >= said1, f'{fid}:warn', f'{name}: warnings {said1} without the element, {said} with it being not-a-number')
                keep = np.arange(n) != at
                want = one.table(idx)
                ax = (lambda x: x[..., keep]) if tail < 0 else (lambda x: x[keep])
                if rec.ok(all(g.shape == w.shape for g, w in zip(got, want)), fid, 'shape'):
                    equal(rec, fid, [ax(g) for g in got], [ax(w) for w in want], f'{name} with a not-a-number at element {at} of argument {j}')
                for i, (p, base) in enumerate(zip(pools, a)):
                    for bad in wrong(p):
                        for to in range(min(n, 6)):
                            if to == at and i == j:
                                continue
                            b, c = list(a), [p_[k].copy() for p_, k in zip(one.pools, idx)]
                            b[i] = b[i].copy()
                            b[i][to], c[i][to] = bad, bad
                            (r0, s0), (r1, s1) = warned(f, *c), warned(f, *b)
                            rec.ok((r0 is None) == (r1 is None) and (r0 is None and s0 == s1 or r0 is not None and s1 >= s0 - said0), f'{fid}:{i}:{bad}:{to}',
                                   f'{name} with {bad} at element {to} of argument {i}: {s0}; with a not-a-number at element {at} of argument {j}: {s1}')


def names(rec):
    rec.ok(set(NAMES) == set(functions(rec)), 'names', 'list of functions')
    rec.case('names')
