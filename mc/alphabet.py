"""Alphabet of public operations on one fixed world (model, arguments, configuration, files)."""
import os
import pickle
import signal
import struct
import numpy as np
from mc import fixture, ref

PUBLIC = ('chaos', 'model_utils', 'coordinate_utils', 'data_utils', 'plot_utils', 'config_utils')
SHC = '# test\n1 3 4 2 1\n1999.0 2000.0 2001.5 2003.0\n' + ''.join(
    f'{n} {m} ' + ' '.join(f'{100*n-7*m+3*j:.2f}' for j in range(4)) + '\n' for n in (1, 2, 3) for k in range(n+1) for m in ((k, -k) if k else (0,)))
COV = '# COV-T 1 2\n1 3 4 1990. 1992. 1994. 1996. 1998. 2000. 2002.\n' + ' '.join(str(10.5*i-40) for i in range(9)) + '\n'
IGRF = ('# igrf\nc/s deg ord IGRF IGRF SV\ng/h n m 2000.0 2005.0 2005-10\n' + ''.join(
    f'{"g" if m >= 0 else "h"} {n} {abs(m)} {50*n-m}.5 {49*n+m}.25 {n+m}.5\n' for n in range(1, 11) for k in range(n+1) for m in ((k, -k) if k else (0,))))


class Tmp:
    def __init__(self, d):
        self.d = d

    def tmp(self, name=''):
        return os.path.join(self.d, name) if name else self.d


class World:
    """One fresh model with its arguments; `alt` selects the second set of argument values, in the same arrays."""

    def __init__(self, d):
        from checks import C13
        os.makedirs(d, exist_ok=True)
        self.d, self.out = d, Tmp(os.path.join(d, 'out'))
        os.makedirs(self.out.d, exist_ok=True)
        a = dict(t=C13.T, r=C13.R, th=C13.TH, ph=C13.PH)
        a.update(x=np.array([0.5, -2., 3.]), y=np.array([1., 0.25, -1.]), z=np.array([2., -0.5, 0.1]),
                 c=ref.lcg(15, 50, -500, 500), c2=ref.lcg(15, 51, -500, 500), ct=ref.lcg(45, 52, -99, 99).reshape(3, 15),
                 knots=np.array([0., 0., 0., 0., 1., 2.5, 4., 4., 4., 4.]), tk=np.array([0., 0.5, 1., 2.5, 3.9]), bc=ref.lcg(90, 53, -9, 9).reshape(6, 15),
                 brk=np.array([0., 1., 2.5, 4.]), h=np.array([0., 10., 450., -3., 800.]), lat=np.array([10., -80., 45., 89., 0.]),
                 dip=np.array([-29404.8, -1450.9, 4652.5]), b1=np.array([0.6, 0., 0.8]), b2=np.array([0., 1., 0.]), b3=np.array([-0.8, 0., 0.6]),
                 fr=np.array([0., 1., 0.0027]), sp=(ref.lcg(27, 54, -1, 1) + 1j*ref.lcg(27, 55, -1, 1)).reshape(3, 3, 3),
                 sig=np.array([0.01, 1., 3.]), rad=np.array([6371.2, 5000., 3485.]), per=np.array([1e5, 1e6, 1e7]),
                 yr=np.array([2000., 2004.25, 2011.75, 1999.5]), rc=np.array([-5., 0., 3., 8., 1.]), tq=np.array([5., 35., 90., 143., 170.]), tg=np.array([20., 70., 150.]), pg=np.array([0., 90., 210., 355.]))
        self.a = a
        self.A = {k: v.copy() for k, v in a.items()}
        self.B = {k: v.copy() for k, v in a.items()}
        self.B['t'] += np.array([3.5, 0.5, 700., -20., -1.]); self.B['r'] += 17.; self.B['th'][1:4] += 4.; self.B['ph'] += 11.
        for k in 'xyzc':
            self.B[k] = self.B[k]*1.5 + 0.25
        for k in ('c2', 'ct', 'bc', 'rc', 'dip', 'per'):
            self.B[k] = self.B[k]*1.25
        self.B['tk'] = np.array([0.25, 0.75, 1.5, 3., 4.]); self.B['lat'] -= 1.; self.B['h'] += 5.
        self.B['sp'] = self.B['sp']*2.; self.B['sig'] *= 2.; self.B['yr'] += 1.; self.B['tq'] += 4.; self.B['tg'] += 3.; self.B['pg'] += 2.
        self.rc = [fixture.rc_file(os.path.join(d, 'rc.h5')), os.path.join(d, 'rc2.dat')]
        with open(self.rc[1], 'w') as f:
            f.write('# RC\n')
            for t, e, i in zip(fixture.RC_TIME, fixture.RC_E, fixture.RC_I):
                f.write(f'{float(t)!r} {float(e+i)+3!r}  {float(e)+2!r} {float(i)+1!r} D\n')
        from chaosmagpy import basicConfig
        self.cfg = basicConfig
        self.files = {}
        for n, s in (('m.shc', SHC), ('COV T.txt', COV), ('igrf.txt', IGRF), ('bad.shc', SHC.replace('2000.0', 'x')), ('one.txt', '1.0 2\n')):
            self.files[n] = os.path.join(d, n)
            with open(self.files[n], 'w') as f:
                f.write(s)
        self.config(0)
        self.values(0)
        self.fresh()
        self.files['m.mat'] = os.path.join(d, 'm.mat')
        if not os.path.exists(self.files['m.mat']):
            self.m.save_matfile(self.files['m.mat'])
        lib = os.path.dirname(self.cfg['file.GSM_spectrum'])
        self.watch = sorted({*[os.path.join(lib, f) for f in os.listdir(lib)], *self.files.values(), *self.rc})
        self.stat0 = self.stat()

    def stat(self):
        out = [sorted(os.listdir(os.path.dirname(self.watch[0]))), sorted(os.listdir(self.d))]
        for f in self.watch:
            try:
                s = os.stat(f)
                out.append((f, s.st_size, s.st_mtime_ns, s.st_ino))
            except OSError:
                out.append((f, None))
        return out

    def values(self, alt):
        """Write the other values into the same arrays."""
        for k, v in self.a.items():
            w = v.flags.writeable
            v.flags.writeable = True
            v[...] = (self.B if alt else self.A)[k]
            v.flags.writeable = w
        self.alt = alt

    def config(self, n):
        c = self.cfg
        c['file.RC_index'] = self.rc[n == 2]
        c['params.r_surf'] = 6350. if n == 1 else 6371.2
        c['params.dipole'] = [-30000., -2000., 5000.] if n == 1 else [-29442.0, -1501.0, 4797.1]
        c['params.ellipsoid'] = [6400., 6350.] if n == 1 else [6378.137, 6356.752]
        c['plots.figure_width'] = 1.5 if n == 1 else 6.3
        self.conf = n
        self.cfg0 = self.cfgstate()

    def cfgstate(self):
        return fixture.snapshot(dict(self.cfg))

    def fresh(self, other=0):
        self.other = other
        self.m = fixture.model(order=6, nt=2, seed=77) if other else fixture.model()
        self.attrs = attributes(self.m)
        self.m0 = state(self.m, self.attrs)

    def changed(self, model=True):
        """What differs from before, or None."""
        if model and state(self.m, self.attrs) != self.m0:
            return 'the model changed: ' + ', '.join(k for (k, a), (_, b) in zip(state(self.m, self.attrs), self.m0) if a != b)
        want = self.B if self.alt else self.A
        bad = [k for k, v in self.a.items() if v.shape != want[k].shape or v.dtype != want[k].dtype or v.tobytes() != want[k].tobytes()]
        if bad:
            return f'argument arrays changed: {bad}'
        if model and self.cfgstate() != self.cfg0:
            return 'the configuration changed'
        if np.geterr() != dict(divide='ignore', over='ignore', under='ignore', invalid='ignore'):
            return f'floating-point error handling changed: {np.geterr()}'
        return None

    def files_changed(self):
        s = self.stat()
        if s != self.stat0:
            return f'files changed: {[x for x, y in zip(s, self.stat0) if x != y]}'
        return None


def attributes(obj):
    """Public attributes an object has now (recursively for the parts of a model)."""
    return {k: attributes(v) if type(v).__module__.startswith('chaosmagpy') else None
            for k, v in sorted(vars(obj).items()) if not k.startswith('_') and k != 'timestamp'}


def state(obj, attrs):
    return tuple((k, state(getattr(obj, k, None), sub) if sub is not None else fixture.snapshot(getattr(obj, k, 'missing'))) for k, sub in attrs.items())


def figure(fig):
    """What a real figure shows; closes it."""
    import matplotlib.pyplot as plt
    out = []
    for ax in fig.axes:
        out.append((ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), tuple(np.round(ax.get_xlim() + ax.get_ylim(), 9)),
                    [(ln.get_xdata(orig=False), ln.get_ydata(orig=False), ln.get_label()) for ln in ax.lines],
                    [np.ma.filled(np.ma.asarray(c.get_array()), np.nan) for c in ax.collections if c.get_array() is not None]))
    plt.close(fig)
    return [list(x[:4]) + [y for y in x[4]] + x[5] for x in out]


def params(x):
    """Attributes of a loaded model."""
    return [getattr(x, k, None) for k in ('name', 'breaks', 'order', 'coeffs', 'source', 'nmax', 'meta')]


def operations(w):
    """name -> function of the world; kinds: 'e' evaluation, 'p' drawing, 'f' failing, 's' saving."""
    from checks import C13
    q = {}
    for n, (need, f) in C13.queries(w.out, False).items():
        kind = 'p' if n[:2] in ('pe', 'pt', 'pm', 'ps') else 's' if n in ('ft', 'fs') else 'f' if need == ('never',) else 'e'
        q['m.' + n] = kind, (lambda W, f=f: f(W.m))
    a = w.a
    t, r, th, ph, tq = a['t'], a['r'], a['th'], a['ph'], a['tq']

    def e(name, f, kind='e'):
        q[name] = kind, f

    def mods():
        import chaosmagpy as cp
        return cp
    cp = mods()
    mu, cu, du, pu, ch = cp.model_utils, cp.coordinate_utils, cp.data_utils, cp.plot_utils, cp.chaos
    # model_utils
    e('design', lambda W: mu.design_matrix(a['knots'], 4, 3, a['tk'], r, tq, ph))
    e('design2', lambda W: mu.design_matrix(a['knots'], 4, 2, a['tk'], r, tq, ph, n_static=3))
    for d in (None, 1, 2):
        e(f'colloc{d}', lambda W, d=d: mu.colloc_matrix(a['tk'], a['knots'], 4, deriv=d))
    e('augment', lambda W: mu.augment_breaks(a['brk'], 3))
    e('ppfrom', lambda W: mu.pp_from_bspline(a['bc'], a['knots'], 4))
    e('frombs', lambda W: params(ch.BaseModel.from_bspline('X', a['knots'], a['bc'], 4)))
    for kw in (dict(), dict(nmin=2), dict(mmax=1), dict(source='external'), dict(nmax=2)):
        e(f'sv{kw}', lambda W, kw=kw: mu.synth_values(a['c'], r, th, ph, **kw))
        e(f'dg{kw}', lambda W, kw=kw: mu.design_gauss(r, th, ph, kw.get('nmax', 3), **{k: v for k, v in kw.items() if k != 'nmax'}))
    e('svgrid', lambda W: mu.synth_values(a['c'], 6500., a['tg'], a['pg'], grid=True))
    e('svbc', lambda W: mu.synth_values(a['ct'][:, None], r[None], th, ph))
    e('svdate', lambda W: mu.synth_values(a['c'], r[:, None], a['tg'], 40.))
    e('sfp', lambda W: mu.synth_from_pp(a['brk'], 1, a['ct'][None, :, :], a['tk'], r, th, ph))
    e('leg', lambda W: mu.legendre_poly(4, th))
    e('leg1', lambda W: mu.legendre_poly(6, a['tg']))
    for s in ('internal', 'external', 'toroidal'):
        e(f'spec{s}', lambda W, s=s: mu.power_spectrum(a['c'], 3485., source=s))
    e('spec2', lambda W: mu.power_spectrum(a['ct'], nmax=2))
    e('corr', lambda W: mu.degree_correlation(a['c'], a['c2']))
    e('sens', lambda W: mu.sensitivity(a['c'], a['c2']))
    # coordinate_utils
    e('igrf', lambda W: [cu.igrf_dipole(), cu.igrf_dipole('2015'), cu.igrf_dipole('2010')])
    e('dip', lambda W: cu.dipole_to_vec(a['dip']))
    e('dip0', lambda W: cu.dipole_to_vec())
    for s in (True, False):
        e(f'rot{s}', lambda W, s=s: cu.synth_rotate_gauss(t, a['fr'], a['sp'], scaled=s))
    e('rfft', lambda W: list(cu.rotate_gauss_fft(1, 1, step=6., N=16, reference='gsm', start_date=0.)), 'h')
    e('rgauss', lambda W: cu.rotate_gauss(2, 2, a['b1'], a['b2'], a['b3']))
    e('sha', lambda W: cu.sh_analysis(lambda x, y: np.cos(np.radians(x)) + 0.5*np.sin(np.radians(x))*np.cos(np.radians(y)), 2))
    e('sun', lambda W: cu.sun_position(t))
    e('zen', lambda W: cu.zenith_angle(t, th, ph))
    e('s2c', lambda W: cu.spherical_to_cartesian(r, th, ph))
    e('c2s', lambda W: cu.cartesian_to_spherical(a['x'], a['y'], a['z']))
    e('g2g', lambda W: cu.gg_to_geo(a['h'], a['lat'], a['rc'], a['h']))
    e('g2g0', lambda W: cu.gg_to_geo(a['h'], a['lat']))
    e('geo2gg', lambda W: cu.geo_to_gg(r, th, a['rc'], a['h']))
    e('geo2gg0', lambda W: cu.geo_to_gg(r, th))
    e('bgg', lambda W: cu.basevectors_gg(th, a['lat']))
    e('bgsm', lambda W: cu.basevectors_gsm(t))
    e('bgsmd', lambda W: cu.basevectors_gsm(t, a['dip']))
    e('bsm', lambda W: cu.basevectors_sm(t))
    e('bsmd', lambda W: cu.basevectors_sm(t, dipole=a['dip']))
    e('bmag', lambda W: cu.basevectors_mag())
    e('bmagd', lambda W: cu.basevectors_mag(a['dip']))
    e('buse', lambda W: cu.basevectors_use(tq, ph))
    for inv in (None, True):
        e(f'gb{inv}', lambda W, inv=inv: cu.geo_to_base(th, ph, a['b1'], a['b2'], a['b3'], inverse=inv))
        e(f'mgb{inv}', lambda W, inv=inv: cu.matrix_geo_to_base(tq, ph, a['b1'], a['b2'], a['b3'], inverse=inv))
        for rf in ('gsm', 'sm', 'mag'):
            e(f'tp{rf}{inv}', lambda W, rf=rf, inv=inv: cu.transform_points(th, ph, t, reference=rf, inverse=inv))
            e(f'tv{rf}{inv}', lambda W, rf=rf, inv=inv: cu.transform_vectors(tq, ph, a['rc'], a['h'], t, reference=rf, inverse=inv))
    e('tpd', lambda W: cu.transform_points(th, ph, t, reference='gsm', dipole=a['dip']))
    e('caz', lambda W: cu.center_azimuth(a['pg']))
    e('lt', lambda W: cu.local_time(t, ph))
    for k in ('constant', 'quadratic'):
        e(f'q1d{k}', lambda W, k=k: list(cu.q_response_1D(a['per'], a['sig'], a['rad'], 2, kind=k)))
    e('qr', lambda W: cu.q_response(1./a['per'][:2], 1), 'h')
    # data_utils
    e('lmat', lambda W: sorted((k, v) for k, v in du.load_matfile(W.files['m.mat']).items() if not k.startswith('__') and isinstance(v, np.ndarray)))
    e('lrc', lambda W: (lambda d: [list(d.columns), np.asarray(d.index), d.iloc[:, :3].to_numpy(dtype=float)])(du.load_RC_datfile(W.rc[1], parse_dates=False)))
    e('lshc', lambda W: list(du.load_shcfile(W.files['m.shc'])))
    e('lshcT', lambda W: list(du.load_shcfile(W.files['m.shc'], leap_year=False)))
    e('sshc', lambda W: saved(W, 'u.shc', lambda p: du.save_shcfile(a['brk'], a['bc'][:4], order=2, filepath=p), du.load_shcfile), 's')
    e('mjd', lambda W: du.mjd2000(2004, 2, np.arange(1, 20), 12, 30))
    e('ts', lambda W: du.timestamp(t))
    e('leapy', lambda W: du.is_leap_year(np.round(a['yr']).astype(int)))
    for ly in (None, False):
        e(f'd2m{ly}', lambda W, ly=ly: du.dyear_to_mjd(a['yr'], leap_year=ly))
        e(f'm2d{ly}', lambda W, ly=ly: du.mjd_to_dyear(t, leap_year=ly))
    e('units', lambda W: [du.gauss_units(k) for k in (None, 0, 1, 2)])
    e('lmodel', lambda W: (lambda m: params(m.model_tdep) + params(m.model_static) + [m.coeffs_gsm, m.coeffs_sm, m.breaks_delta, m.coeffs_delta])(ch.CHAOS.from_mat(W.files['m.mat'], satellites=fixture.SATS)), 'h')
    e('lmshc', lambda W: params(ch.CHAOS.from_shc(W.files['m.shc']).model_tdep))
    e('lbshc', lambda W: params(ch.BaseModel.from_shc(W.files['m.shc'])))
    e('lcov', lambda W: params(ch.load_CovObs_txtfile(W.files['COV T.txt'])))
    e('ligrf', lambda W: params(ch.load_IGRF_txtfile(W.files['igrf.txt'])))
    # parts of the model
    e('pp', lambda W: W.m.model_tdep.to_ppdict())
    e('bsv', lambda W: W.m.model_tdep.synth_values(t, r, th, ph))
    e('bsvs', lambda W: W.m.model_static.synth_values(t, r, th, ph, nmax=4))
    e('bspec', lambda W: W.m.model_tdep.power_spectrum(t, 3485.))
    e('beu', lambda W: W.m.model_euler['alpha'].synth_coeffs(t, extrapolate='linear'))
    e('rcarr', lambda W: W.m(t, r, th, ph, rc_e=a['rc'], rc_i=a['rc']))
    e('rcarr2', lambda W: W.m.synth_coeffs_sm(t, source='external', rc=a['rc']))
    e('str', lambda W: str(W.m).split(':')[0])
    e('bshc', lambda W: saved(W, 'b.shc', lambda p: W.m.model_tdep.to_shc(p, nmin=1, nmax=2), du.load_shcfile), 's')
    e('bmat', lambda W: saved(W, 'b.mat', lambda p: W.m.model_tdep.save_matfile(p), lambda p: {k: v for k, v in du.load_matfile(p).items() if not k.startswith('__')}), 's')
    e('smat', lambda W: saved(W, 's.mat', lambda p: W.m.save_matfile(p), lambda p: params(ch.CHAOS.from_mat(p).model_tdep)), 's')
    e('cfgsave', lambda W: saved(W, 'c.json', lambda p: W.cfg.save(p), lambda p: open(p).read()), 's')
    # real drawings
    import matplotlib.pyplot as plt

    def drawn(fn):
        plt.close('all')
        fn()
        return figure(plt.gcf())
    e('Pspec', lambda W: drawn(lambda: W.m.model_tdep.plot_power_spectrum(0.5)), 'P')
    e('Pmap', lambda W: drawn(lambda: W.m.plot_maps_tdep(0.5, 6800., nmax=2)), 'P')
    e('Pser', lambda W: drawn(lambda: W.m.plot_timeseries_tdep(6800., 30., 40.)), 'P')
    e('Pstat', lambda W: drawn(lambda: W.m.plot_maps_static(6800.)), 'P')
    e('Pext', lambda W: drawn(lambda: W.m.plot_maps_external(0.5, 6800., reference='all', source='internal')), 'P')
    e('Pspecu', lambda W: drawn(lambda: pu.plot_power_spectrum(a['c'][:5])), 'P')
    e('Pseru', lambda W: drawn(lambda: pu.plot_timeseries(t, r, a['rc'], titles=['a', 'b'])), 'P')
    e('Pmapu', lambda W: drawn(lambda: pu.plot_maps(a['tg'], a['pg'], a['ct'][:, :4], a['ct'][:, 4:8])), 'P')
    # failing operations
    for n, f in dict(
            xextra=lambda W: W.m.synth_coeffs_tdep(t + 9000., extrapolate='nonsense'),
            xtheta=lambda W: W.m.synth_values_tdep(t, r, th + 150., ph),
            xtheta2=lambda W: W.m(t, r, th + 150., ph),
            xshape=lambda W: W.m.synth_values_tdep(t, r[:2], th[:3], ph),
            xshape2=lambda W: W.m.synth_values_sm(t, r[:2], th[:3], ph),
            xsat=lambda W: W.m.synth_euler_angles(t, 'nosat'),
            xsrc=lambda W: W.m.synth_coeffs_gsm(t, source='nonsense'),
            xsrc2=lambda W: W.m.synth_coeffs_sm(t, source='nonsense'),
            xrcrange=lambda W: W.m.synth_coeffs_sm(t + 9000., source='external'),
            xrcall=lambda W: W.m(t + 9000., r, th, ph),
            xrcsize=lambda W: W.m.synth_coeffs_sm(t, rc=np.arange(3.)),
            xnmax=lambda W: W.m.synth_values_tdep(t, r, th, ph, nmax=-1),
            xnmin=lambda W: mu.synth_values(a['c'], r, th, ph, nmin=5, nmax=2),
            xmmax=lambda W: mu.synth_values(a['c'], r, th, ph, mmax=-2),
            xcoef=lambda W: mu.synth_values(a['x'][:2], r, th, ph),
            xsave=lambda W: W.m.save_shcfile(os.path.join(W.out.d, 'no', 'm.shc')),
            xsavem=lambda W: W.m.save_matfile(os.path.join(W.out.d, 'no', 'm.mat')),
            xload=lambda W: du.load_shcfile(os.path.join(W.out.d, 'nofile.shc')),
            xbad=lambda W: du.load_shcfile(W.files['bad.shc']),
            xbad2=lambda W: ch.load_CovObs_txtfile(W.files['one.txt']),
            xmat=lambda W: ch.load_CHAOS_matfile(W.files['one.txt']),
            xref=lambda W: cu.transform_points(th, ph, t, reference='nonsense'),
            xref2=lambda W: W.m.plot_maps_external(0.5, 6800., reference='nonsense'),
            xlayout=lambda W: pu.plot_maps(a['tg'], a['pg'], a['ct'][:, :4], a['ct'][:, 4:8], layout=(3, 2)),
            xlayout2=lambda W: pu.plot_timeseries(t, r, a['rc'], layout=(3, 2)),
            xpole=lambda W: W.m.plot_timeseries_tdep(6800., 30., np.zeros((2, 2, 2))),
            xdip=lambda W: cu.dipole_to_vec('abc'),
            xdip2=lambda W: cu.basevectors_gsm(t, a['x'][:2]),
            xyear=lambda W: du.mjd2000(2000, 13, 1),
            xcfg=lambda W: W.cfg.__setitem__('params.dipole', [1., 2.]),
            xcfg2=lambda W: W.cfg.__setitem__('nokey', 1.),
            xcfg3=lambda W: W.cfg.load(W.files['one.txt']),
            xctx=lambda W: W.cfg.context('params.r_surf', 'abc').__enter__()).items():
        e(n, f, 'f')
    return q


def saved(W, name, save, load):
    p = W.out.tmp(name)
    save(p)
    return load(p)


def answer(f, W):
    """The caller's view of one operation."""
    try:
        return 'ok', fixture.snapshot(f(W))
    except Exception as err:
        return 'error', type(err).__name__, str(err)[:200].replace(W.d, '<dir>')


def same(a, b, rtol=1e-11):
    """Equal up to rounding (the same operation may be summed in another order)."""
    if a == b:
        return True
    if type(a) is not type(b) or not isinstance(a, tuple) or len(a) != len(b):
        return False
    if len(a) == 4 and a[0] == 'a' == b[0]:
        if a[1:3] != b[1:3] or isinstance(a[3], str) or np.dtype(a[2]).kind not in 'fc':
            return False
        x, y = np.frombuffer(a[3], a[2]), np.frombuffer(b[3], b[2])
        with np.errstate(all='ignore'):
            return bool(np.all((x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x-y) <= rtol*np.abs(y).max())))
    return all(same(x, y, rtol) for x, y in zip(a, b))


def isolated(fn):
    """Result of fn() in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(120)
            data = pickle.dumps(fn())
            data = struct.pack('>Q', len(data)) + data
            data = memoryview(data)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = bytearray()
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    if len(data) < 8 or len(data) != 8 + struct.unpack('>Q', data[:8])[0]:
        return ('error', 'process died', '')
    return pickle.loads(memoryview(data)[8:])
