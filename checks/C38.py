"""C38: optional arguments mean their documented defaults, and every way of passing them is equivalent."""
import contextlib
import io
import itertools
import os
import warnings
import numpy as np
from mc import alphabet, fixture, ref

PROPERTY, LEVEL = 'C38', 'exploration'
RULE = ('for every public function and method with optional arguments (about 75): every assignment of {left out, None, documented default, other values} to its optional arguments, and every split into positional and keyword arguments; '
        'the answer is compared with that of the call that spells out every argument with the documented default, which itself must change when a single argument is changed; a case is (function, assignment, number of positional arguments)')
ASSUMPTIONS = ['the documented defaults are read from the docstrings of the functions (table in this file)', 'for functions with more than six optional arguments, at most three (thorough: four) of them differ from the default at a time']

OMIT = 'left out'
R_SURF = 6371.2
NINE = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c', 'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']


class Spec:
    """call(*optional positional, **keywords); opts: name -> (documented default, other values); `pos` options may be positional; `none`: None stands for the default."""

    def __init__(self, call, opts, pos=0, none=True, mute=()):
        self.call, self.opts, self.pos, self.none, self.mute = call, opts, pos, none, mute


def lines(path):
    """Text of a saved file without its date."""
    with open(path) as f:
        return [x for x in f.read().split('\n') if not x.startswith('# Created on')]


def specs(rec):
    """name -> Spec (fresh world)."""
    import matplotlib.pyplot as plt
    import chaosmagpy as cp
    mu, cu, du, pu, ch = cp.model_utils, cp.coordinate_utils, cp.data_utils, cp.plot_utils, cp.chaos
    m = fixture.model()
    fixture.use_rc(rec.tmp('rc.h5'))
    t, r = np.array([-300., 0.5, 380.]), np.array([6400., 6800., 7100.])
    tx = np.array([-700., 0.5, 600.])          # partly outside of the model period
    th, ph = np.array([20., 75., 140.]), np.array([-100., 10., 200.])
    c, ct = ref.lcg(15, 901, -500, 500), ref.lcg(45, 902, -99, 99).reshape(3, 15)
    knots, tk = np.array([0., 0., 0., 0., 1., 2.5, 4., 4., 4., 4.]), np.array([0.25, 1.5, 3.5])
    brk = np.array([0., 1., 2.5, 4.])
    tc = ref.lcg(2*3*15, 903, -90, 90).reshape(2, 3, 15)
    dip, dip2 = [-29442.0, -1501.0, 4797.1], np.array([-25000., 3000., 1000.])
    b1, b2, b3 = np.array([0.6, 0., 0.8]), np.array([0., 1., 0.]), np.array([-0.8, 0., 0.6])
    ext, lin = ('constant', 'quadratic', 'off', 'spline', 3, 1), 'linear'
    q = {}

    def add(name, call, opts, pos=0, **kw):
        q[name] = Spec(call, opts, pos, **kw)

    def bind(f, *need, **fix):
        return lambda *a, **k: f(*need, *a, **fix, **k)

    # parts of a model
    add('Base.synth_coeffs', bind(m.model_euler['bravo'].synth_coeffs, tx), dict(dim=(3, (2, 1)), deriv=(0, (1,)), extrapolate=(lin, ext[:1])), mute=('deriv', 'extrapolate'))
    add('BaseModel.synth_coeffs', bind(m.model_tdep.synth_coeffs, tx), dict(nmax=(3, (2, 1)), deriv=(0, (1, 2)), extrapolate=(lin, ext)))
    add('BaseModel.synth_values', bind(m.model_tdep.synth_values, tx, 6500., th, ph), dict(nmax=(3, (2,)), deriv=(0, (1,)), extrapolate=(lin, ext[:3])))
    add('BaseModel.synth_values grid', bind(m.model_tdep.synth_values, 380., 6500., th, ph), dict(nmax=(3, (2,)), deriv=(0, (1,)), grid=(False, (True,)), extrapolate=(lin, ())))
    add('BaseModel.power_spectrum', bind(m.model_tdep.power_spectrum, t), dict(radius=(R_SURF, (3485.,)), nmax=(3, (2,)), deriv=(0, (1,))), 1)
    add('BaseModel.power_spectrum x', bind(m.model_tdep.power_spectrum, tx, 6371.2), dict(extrapolate=(lin, ext)))
    # models
    add('tdep.coeffs', bind(m.synth_coeffs_tdep, tx), dict(nmax=(3, (2, 1)), deriv=(0, (1, 2)), extrapolate=(lin, ext)))
    add('tdep.values', bind(m.synth_values_tdep, tx, 6500., th, ph), dict(nmax=(3, (2,)), deriv=(0, (1,)), extrapolate=(lin, ext[:3])))
    add('tdep.values grid', bind(m.synth_values_tdep, 100., 6500., th, ph), dict(nmax=(3, (2,)), deriv=(0, (1,)), grid=(False, (True,)), extrapolate=(lin, ())))
    add('static.coeffs', m.synth_coeffs_static, dict(nmax=(5, (4,)), deriv=(0, (1,)), extrapolate=(lin, ())))
    add('static.values', bind(m.synth_values_static, 6500., th, ph), dict(nmax=(5, (4,)), deriv=(0, (1,)), grid=(False, (True,))))
    add('gsm.coeffs', bind(m.synth_coeffs_gsm, t), dict(nmax=(2, (1,)), source=('external', ('internal',))))
    add('gsm.values', bind(m.synth_values_gsm, 100., 6500., th, ph), dict(nmax=(2, (1,)), source=('all', ('internal', 'external')), grid=(False, (True,))))
    rce, rci = fixture.rc_value(t, 'external'), fixture.rc_value(t, 'internal')
    for s, d in (('external', rce), ('internal', rci)):
        add(f'sm.coeffs {s}', bind(lambda *a, s=s, **k: m.synth_coeffs_sm(*a, source=s, **k), t), dict(nmax=(2, (1,)), rc=(d, (d + 5.,))))
    add('sm.coeffs', bind(m.synth_coeffs_sm, t), dict(nmax=(2, (1,)), source=('external', ('internal',))))
    add('sm.values', bind(m.synth_values_sm, t, 6500., th, ph), dict(rc_e=(rce, (rce + 5.,)), rc_i=(rci, (rci - 3.,)), nmax=(2, (1,)), source=('all', ('internal', 'external'))))
    add('sm.values grid', bind(m.synth_values_sm, 100., 6500., th, ph), dict(nmax=(2, (1,)), source=('all', ('internal',)), grid=(False, (True,))))
    every = ['tdep', 'static', 'gsm', 'sm']
    add('model call', bind(m, t, r, th, ph), dict(rc_e=(rce, (rce + 5.,)), rc_i=(rci, (rci - 3.,)), source_list=(every, ('internal', 'external', ['sm'], ['gsm', 'tdep'])), nmax_static=(85, (4,)), verbose=(False, (True,))), 5, mute=('verbose',))
    add('euler', bind(m.synth_euler_angles, tx, 'bravo'), dict(dim=(3, (2, 1)), deriv=(0, (1,)), extrapolate=(lin, ext)), mute=('deriv', 'extrapolate'))

    # construction
    def base(*a, **k):
        x = ch.BaseModel('N', *a, **k)
        return [x.name, x.breaks, x.order, x.coeffs, x.source, x.nmax, x.meta]
    add('BaseModel', base, dict(breaks=(brk, ()), order=(2, ()), coeffs=(tc, ()), source=('internal', ('external',)), meta=(None, (dict(a=1),))), 5, none=('source', 'meta'))
    q['BaseModel'].required = ('breaks', 'order', 'coeffs')

    def frombs(*a, **k):
        x = ch.BaseModel.from_bspline('N', knots, ref.lcg(90, 53, -9, 9).reshape(6, 15), 4, *a, **k)
        return [x.name, x.breaks, x.order, x.coeffs, x.source, x.nmax, x.meta]
    add('from_bspline', frombs, dict(source=('internal', ('external',)), meta=(None, (dict(a=1),))), 2)

    # functions of model_utils
    add('synth_values', bind(mu.synth_values, c, 6500., th, ph), dict(nmax=(3, (2,)), nmin=(1, ()), mmax=(3, (1, 0)), source=('internal', ('external',)), grid=(False, (True,))))
    q['synth_values'].follow = dict(nmax=lambda k: {1: 5, 0: 15}.get(k.get('mmax'), 3))     # as many degrees as there are coefficients
    add('synth_values nmin', bind(mu.synth_values, c[3:], 6500., th, ph), dict(nmax=(3, (2,)), nmin=(2, ()), mmax=(3, (1, 0)), source=('internal', ('external',)), grid=(False, (True,))))
    q['synth_values nmin'].required = ('nmin',)
    q['synth_values nmin'].follow = dict(nmax=lambda k: {1: 5, 0: 13}.get(k.get('mmax'), 3))
    add('synth_from_pp', bind(mu.synth_from_pp, brk, 2, tc, tk, 6500., th, ph), dict(nmax=(3, (2,)), source=('internal', ('external',)), deriv=(0, (1,))))
    add('synth_from_pp grid', bind(mu.synth_from_pp, brk, 2, tc, 0.75, 6500., th, ph), dict(nmax=(3, (2,)), source=('internal', ('external',)), deriv=(0, (1,)), grid=(False, (True,))))
    add('design_gauss', bind(mu.design_gauss, r, th, ph, 3), dict(nmin=(1, (2, 3)), mmax=(3, (0, 1, 2)), source=('internal', ('external',))))
    add('design_matrix', bind(mu.design_matrix, knots, 4, 2, tk, r, th, ph), dict(n_static=(None, (3, 4)), source=('internal', ('external',))), 2)
    add('colloc_matrix', bind(mu.colloc_matrix, tk, knots, 4), dict(deriv=(0, (1, 2))), 1)
    add('power_spectrum', bind(mu.power_spectrum, ct), dict(radius=(R_SURF, (3485.,)), nmax=(3, (2, 1)), source=('internal', ('external', 'toroidal')), axis=(-1, (1,))), 1, mute=('axis',))
    add('power_spectrum axis', bind(mu.power_spectrum, ct.T.copy(), axis=0), dict(radius=(R_SURF, (3485.,)), nmax=(3, (2,)), source=('internal', ('external', 'toroidal'))))
    # functions of coordinate_utils
    d = lambda: dict(dipole=(dip, (dip2,)))
    add('basevectors_gsm', bind(cu.basevectors_gsm, t), d(), 1)
    add('basevectors_sm', bind(cu.basevectors_sm, t), d(), 1)
    add('basevectors_mag', cu.basevectors_mag, d(), 1)
    add('dipole_to_vec', cu.dipole_to_vec, d(), 1)
    add('igrf_dipole', cu.igrf_dipole, dict(epoch=('2015', ('2010',))), 1)
    add('geo_to_base', bind(cu.geo_to_base, th, ph, b1, b2, b3), dict(inverse=(False, (True,))), 1)
    add('matrix_geo_to_base', bind(cu.matrix_geo_to_base, th, ph, b1, b2, b3), dict(inverse=(False, (True,))), 1)
    for rf in ('gsm', 'sm', 'mag'):
        add(f'transform_points {rf}', bind(cu.transform_points, th, ph), dict(time=(t, (t + 0.25,)), reference=(rf, ()), inverse=(False, (True,)), dipole=(dip, (dip2,))), 1, mute=('time',) if rf == 'mag' else ())
        add(f'transform_vectors {rf}', bind(cu.transform_vectors, th, ph, ph + 5., th - 9.), dict(time=(t, (t + 0.25,)), reference=(rf, ()), inverse=(False, (True,)), dipole=(dip, (dip2,))), 4, mute=('time',) if rf == 'mag' else ())
        for n in (f'transform_points {rf}', f'transform_vectors {rf}'):
            q[n].required = ('reference',) if rf == 'mag' else ('time', 'reference')
            if rf == 'mag':
                q[n].free = ('time',)     # ignored for this frame
    add('geo_to_gg', bind(cu.geo_to_gg, r, th), dict(B_radius=(None, (ph,)), B_theta=(None, (th,))), 2, mute=('B_radius', 'B_theta'))
    add('gg_to_geo', bind(cu.gg_to_geo, r - 6000., th), dict(X=(None, (ph,)), Z=(None, (th,))), 2, mute=('X', 'Z'))
    add('sh_analysis', bind(cu.sh_analysis, lambda x, y: np.cos(np.radians(x)) + np.sin(np.radians(x))**6*np.cos(6*np.radians(y)), 2), dict(kmax=(2, (6,))), 1)
    add('q_response_1D', bind(cu.q_response_1D, np.array([1e5, 1e6]), np.array([0.01, 1., 3.]), np.array([6371.2, 5000., 3485.]), 2), dict(kind=('quadratic', ('constant',))), 1)
    add('rotate_gauss_fft', bind(lambda *a, **k: cu.rotate_gauss_fft(1, 1, *a, **k)), dict(step=(1.0, (6.,)), N=(24, (16,)), filter=(13, (5, 2)), save_to=(False, ()), reference=('gsm', ('sm',)), scaled=(False, (True,)), start_date=(0.0, (31.25,))))
    q['rotate_gauss_fft'].required = ('N',)
    q['rotate_gauss_fft'].follow = {'filter': lambda k: k['N']//2 + 1}
    sp = (ref.lcg(27, 54, -1, 1) + 1j*ref.lcg(27, 55, -1, 1)).reshape(3, 3, 3)
    add('synth_rotate_gauss', bind(cu.synth_rotate_gauss, t, np.array([0., 1., 0.0027]), sp), dict(scaled=(False, (True,))), 1)
    # functions of data_utils
    add('dyear_to_mjd', bind(du.dyear_to_mjd, np.array([2004.25, 1999.5, 1900.75])), dict(leap_year=(True, (False,))), 1)
    add('mjd_to_dyear', bind(du.mjd_to_dyear, np.array([1000.25, -3.5, 7000.])), dict(leap_year=(True, (False,))), 1)
    add('gauss_units', du.gauss_units, dict(deriv=(0, (1, 2, 3))), 1)
    add('mjd2000', bind(du.mjd2000, 2004), dict(month=(1, (7,)), day=(1, (29,)), hour=(0, (13,)), minute=(0, (17,)), second=(0, (59,)), microsecond=(0, (7,)), nanosecond=(0, (900,))), 7, none=False)
    rc = os.path.join(rec.tmp('rcdat'), 'rc.dat')
    os.makedirs(os.path.dirname(rc))
    fixture.rc_file(rc, 'dat')

    def frame(x):
        return [list(map(str, x.columns)), str(x.index.dtype), np.asarray(x.index).astype(float), x[['RC', 'RC_e', 'RC_i']].to_numpy(float)]
    add('load_RC_datfile', lambda *a, **k: frame(du.load_RC_datfile(rc, *a, **k)), dict(parse_dates=(False, (True,))), 1)

    # files
    box = rec.tmp('files')
    os.makedirs(box)
    os.chdir(box)
    p = os.path.join(box, 'some model.shc')
    with open(p, 'w') as f:
        f.write(alphabet.SHC)
    add('load_shcfile', lambda *a, **k: list(du.load_shcfile(p, *a, **k)), dict(leap_year=(True, (False,)), comment=('#', (('#', '%'),))), 2, mute=('comment',))
    add('BaseModel.from_shc', lambda *a, **k: alphabet.params(ch.BaseModel.from_shc(p, *a, **k)), dict(name=('some model', ('other',)), leap_year=(False, (True,)), source=('internal', ('external',)), meta=(None, (dict(a=1),))))

    def loaded(x):
        return [x.name, x.timestamp[:0]] + [alphabet.params(y) if y is not None else None for y in (x.model_tdep, x.model_static)] + [
            x.coeffs_gsm, x.coeffs_sm, x.breaks_delta, x.coeffs_delta, list(x.model_euler or [])] + [[k, v.breaks, v.coeffs, v.meta] for d in (x.model_euler, x.model_cal) for k, v in (d or {}).items()]
    for n, f in (('load_CHAOS_shcfile', ch.load_CHAOS_shcfile), ('CHAOS.from_shc', ch.CHAOS.from_shc)):
        add(n, lambda *a, f=f, **k: loaded(f(p, *a, **k)), dict(name=('some model', ('other',)), leap_year=(False, (True,))), 2 if n[0] == 'l' else 0)
    big = fixture.model(('tdep', 'static', 'gsm', 'sm', 'euler'), sats=NINE, bins=(1, 2, 1, 1, 3, 1, 1, 2, 1))
    mat = os.path.join(box, 'some file.mat')
    big.save_matfile(mat)
    for n, f in (('load_CHAOS_matfile', ch.load_CHAOS_matfile), ('CHAOS.from_mat', ch.CHAOS.from_mat)):
        add(n, lambda *a, f=f, **k: loaded(f(mat, *a, **k)), dict(name=('some file', ('other',)), satellites=(NINE, (NINE[::-1], [f's{i}' for i in range(9)]))), 2)
    cov, igrf = os.path.join(box, 'COV T.txt'), os.path.join(box, 'igrf T.txt')
    for path, s in ((cov, alphabet.COV), (igrf, alphabet.IGRF)):
        with open(path, 'w') as f:
            f.write(s)
    add('load_CovObs_txtfile', lambda *a, **k: alphabet.params(ch.load_CovObs_txtfile(cov, *a, **k)), dict(name=('COV T', ('x',))), 1)
    add('load_IGRF_txtfile', lambda *a, **k: alphabet.params(ch.load_IGRF_txtfile(igrf, *a, **k)), dict(name=('igrf T', ('x',))), 1)

    def shc(save):
        o = os.path.join(box, 'out.shc')
        save(o)
        return lines(o)
    add('BaseModel.to_shc', lambda *a, **k: shc(lambda o: m.model_tdep.to_shc(o, *a, **k)), dict(leap_year=(False, (True,)), nmin=(1, (2,)), nmax=(3, (2,)), header=(f'# {m.model_tdep.name}\n', ('# other\n',))))
    add('CHAOS.save_shcfile', lambda *a, **k: shc(lambda o: m.save_shcfile(o, *a, **k)), dict(model=('tdep', ('static',)), leap_year=(False, (True,))))
    ts, cs = np.array([0., 100., 250., 400., 1000.]), ref.lcg(75, 77, -9, 9).reshape(5, 15)

    def named(path='', **k):
        for x in ('model.shc', 'x.shc'):
            if os.path.exists(x):
                os.remove(x)
        du.save_shcfile(ts, cs, **k)
        return [[x, lines(x)] for x in ('model.shc', 'x.shc') if os.path.exists(x)]
    add('save_shcfile', lambda *a, **k: named(**dict(zip(('order', 'filepath', 'nmin', 'nmax', 'leap_year', 'header'), a)), **k),
        dict(order=(1, (2,)), filepath=('model.shc', ('x.shc',)), nmin=(1, (2,)), nmax=(3, (2,)), leap_year=(True, (False,)), header=('', ('# other\n',))))

    def basemat(*a, **k):
        o = rec.tmp('b.mat')
        m.model_tdep.save_matfile(o, *a, **k)
        import h5py
        with h5py.File(o, 'r') as f:
            out = []
            f.visititems(lambda n, x: out.append([n, np.asarray(x[()])] if isinstance(x, h5py.Dataset) else [n]))
        os.remove(o)
        return out
    add('save_matfile', basemat, dict(path=('/pp', ('/other', '/a/b'))), 1)

    # drawings
    def drawn(f):
        def g(*a, **k):
            plt.close('all')
            f(*a, **k)
            return alphabet.figure(plt.gcf())
        return g
    add('D plot_power_spectrum', drawn(bind(m.model_tdep.plot_power_spectrum, 100.)), dict(radius=(R_SURF, (3485.,)), nmax=(3, (2,)), deriv=(0, (1,))))
    add('D plot_maps', drawn(bind(m.model_tdep.plot_maps, 100., 6800.)), dict(nmax=(3, (2,)), deriv=(0, (1,))))
    add('D plot_maps_tdep', drawn(bind(m.plot_maps_tdep, 100., 6800.)), dict(nmax=(3, (2,)), deriv=(0, (1,))))
    add('D plot_maps_static', drawn(bind(m.plot_maps_static, 6800.)), dict(nmax=(5, (4,))))
    add('D plot_timeseries', drawn(bind(m.model_tdep.plot_timeseries, 6800., 30., 40.)), dict(nmax=(3, (2,)), deriv=(0, (1,)), extrapolate=(lin, ())))
    add('D plot_timeseries_tdep', drawn(bind(m.plot_timeseries_tdep, 6800., 30., 40.)), dict(nmax=(3, (2,)), deriv=(0, (1,)), extrapolate=(lin, ())))
    add('D plot_maps_external', drawn(bind(m.plot_maps_external, 100., 6800.)), dict(nmax=(2, (1,)), reference=('all', ('GSM', 'SM')), source=('all', ('internal',))))
    return q


NAMES = 64      # tasks of functions; the names are only known once the world exists


def tasks(tier):
    deep = tier == 'thorough'
    return [('defaults', dict(part=i, of=12, deep=deep)) for i in range(12)] + [('drawings', dict(part=i, of=7, deep=deep)) for i in range(7)] + [('full', {}), ('equal', {})]


def choices(s, deep):
    """All assignments of the optional arguments."""
    names = list(s.opts)
    required, free = getattr(s, 'required', ()), getattr(s, 'free', ())
    sets = []
    for n in names:
        d, alt = s.opts[n]
        c = ['default'] + [('other', i) for i in range(len(alt))]
        if n not in required:
            c = [OMIT] + c
            if s.none is True or (s.none and n in s.none):
                c.insert(1, 'None')
        sets.append(c)
    if len(names) > 6:
        k = 4 if deep else 3
        for ch in combos(sets, k):
            yield dict(zip(names, ch))
    else:
        for ch in itertools.product(*sets):
            yield dict(zip(names, ch))
    assert isinstance(free, tuple)


def combos(sets, k):
    """At most k of the arguments are not left out, or at most k are not given with their defaults."""
    seen = set()
    for base in (OMIT, 'default'):
        for which in itertools.chain.from_iterable(itertools.combinations(range(len(sets)), i) for i in range(k + 1)):
            for v in itertools.product(*[sets[i] for i in which]):
                ch = [base if base in s else 'default' for s in sets]
                for i, x in zip(which, v):
                    ch[i] = x
                if tuple(ch) not in seen:
                    seen.add(tuple(ch))
                    yield tuple(ch)


def answer(f):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return alphabet.answer(lambda W: f(), Here)


class Here:
    d = '\0'


def explore(rec, name, s, deep):
    names = list(s.opts)
    memo = {}

    def explicit(ch):
        """The call with every argument spelled out."""
        key = tuple(ch[n][1] if isinstance(ch[n], tuple) else -1 for n in names)
        if key not in memo:
            k = {n: s.opts[n][1][i] if i >= 0 else s.opts[n][0] for n, i in zip(names, key)}
            for n, f in getattr(s, 'follow', {}).items():
                if not isinstance(ch[n], tuple):
                    k[n] = f(k)
            memo[key] = answer(lambda: s.call(**k))
        return memo[key]
    plain = dict.fromkeys(names, 'default')
    base = explicit(plain)
    rec.ok(base[0] == 'ok', f'{name}:base', f'{name} with the documented defaults fails: {base[1:]}')
    for n in names:
        for i in range(len(s.opts[n][1])):
            got = explicit({**plain, n: ('other', i)})
            rec.case((name, 'effect', n, i))
            rec.ok(got[0] == 'ok', f'{name}:{n}:{i}', f'{name} with {n}={s.opts[n][1][i]!r} fails: {got[1:]}')
            if n not in s.mute:
                rec.ok(not alphabet.same(got, base), f'{name}:{n}:effect', f'{name}: {n}={s.opts[n][1][i]!r} has no effect')
    count = 0
    for ch in choices(s, deep):
        want = explicit(ch)
        val = {n: None if c == 'None' else s.opts[n][0] if c == 'default' else s.opts[n][1][c[1]] for n, c in ch.items() if c != OMIT}
        for n, f in getattr(s, 'follow', {}).items():
            if ch[n] == 'default':
                val[n] = f(val)
        for np_ in range(s.pos + 1):
            head = names[:np_]
            if any(n not in val for n in head):
                break
            got = answer(lambda: s.call(*[val[n] for n in head], **{n: v for n, v in val.items() if n not in head}))
            count += 1
            if not alphabet.same(got, want, 1e-10):
                rec.fail(f'{name}:' + ','.join(f'{n}={"left out" if n not in val else "None" if val[n] is None else "default" if ch[n] == "default" else "other"}' for n in names if ch[n] != 'default' or np_) + f':{np_}',
                         f'{name}({", ".join(f"{n}={val[n]!r}" for n in names if n in val)}) with {np_} positional gives {str(got)[:150]} instead of {str(want)[:150]}')
    rec.bulk(count, count)


def defaults(rec, part, of, deep):
    q = [n for n in specs(rec) if n[:2] != 'D ']
    for n in q[part::of]:
        explore(rec, n, specs(rec)[n], deep)


def drawings(rec, part, of, deep):
    import matplotlib
    matplotlib.use('Agg')
    q = [n for n in specs(rec) if n[:2] == 'D ']
    for n in q[part::of]:
        explore(rec, n, specs(rec)[n], deep)


def full(rec):
    """Defaults too large for the exploration: eight hourly years of rotation spectra."""
    from chaosmagpy import coordinate_utils as cu
    N = int(8*365.25*24)
    def unit(freq, k):
        return 0.*freq + k + 1.
    want = answer(lambda: list(cu.rotate_gauss_fft(1, 1, qfunc=unit, step=1.0, N=N, filter=N//2 + 1, reference='gsm', scaled=False, start_date=0.0)))
    got = answer(lambda: list(cu.rotate_gauss_fft(1, 1, qfunc=unit)))
    rec.case('N')
    rec.ok(want[0] == 'ok' and alphabet.same(got, want), 'fft:default', 'rotate_gauss_fft(1, 1) differs from N = 8*365.25*24 hourly samples')


def equal(rec):
    """Documented equivalences between values of an option."""
    q = specs(rec)
    for n in ('BaseModel.synth_coeffs', 'tdep.coeffs', 'BaseModel.power_spectrum x', 'euler'):
        s = q[n]
        order = 1 if n == 'euler' else 4
        for a, b in (('constant', 1), ('linear', 2), ('quadratic', 3), ('cubic', 4), ('spline', order)):
            for d in (0, 1, 2):
                kw = {} if 'deriv' not in s.opts else dict(deriv=d)
                x, y = answer(lambda: s.call(extrapolate=a, **kw)), answer(lambda: s.call(extrapolate=b, **kw))
                rec.case((n, a, d))
                rec.ok(x[0] == 'ok' and alphabet.same(x, y), f'{n}:{a}:{d}', f'{n}: extrapolate={a!r} differs from {b}')
    s = q['model call']
    for a, b in (('internal', ['tdep', 'static']), ('external', ['gsm', 'sm'])):
        x, y = answer(lambda: s.call(source_list=a)), answer(lambda: s.call(source_list=b))
        rec.case(a)
        rec.ok(x[0] == 'ok' and alphabet.same(x, y, 1e-10), f'sources:{a}', f'source_list={a!r} differs from {b}')
    for k in itertools.permutations(['tdep', 'static', 'gsm', 'sm']):
        x, y = answer(lambda: s.call(source_list=list(k))), answer(lambda: s.call())
        rec.case(k)
        rec.ok(alphabet.same(x, y, 1e-10), 'sources:order', f'source_list={k} differs from all sources')
    for a, b in (('load_CHAOS_shcfile', 'CHAOS.from_shc'), ('load_CHAOS_matfile', 'CHAOS.from_mat')):
        for ch in choices(q[a], True):
            val = {n: None if c == 'None' else q[a].opts[n][0] if c == 'default' else q[a].opts[n][1][c[1]] for n, c in ch.items() if c != OMIT}
            x, y = answer(lambda: q[a].call(**val)), answer(lambda: q[b].call(**val))
            rec.case((a, str(ch)))
            rec.ok(x[0] == 'ok' and alphabet.same(x, y), f'{a}:{b}', f'{a}({val}) differs from {b}')
