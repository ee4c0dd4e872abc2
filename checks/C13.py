"""C13: models with missing parts answer for the present parts and refuse the others."""
import contextlib
import itertools
import warnings
import numpy as np
from mc import fixture

PROPERTY, LEVEL = 'C13', 'exploration'
RULE = ('all 64 subsets of the six model parts, built with the complete keyword set and with only the needed arguments, crossed with every public query of every part '
        '(evaluation of coefficients and field with all optional arguments, spectra, plots, saving, direct calls with every selection of sources); answers of present parts '
        'are compared bit for bit with the complete model (SHC files after loading), as well as whether it warns (if the model has a period), absent parts have to raise ValueError with a message.')
ASSUMPTIONS = ['drawing functions of plot_utils are replaced by recorders of the arrays they receive']
T = np.array([-480., -100., 0.25, 120., 389.])
R, TH, PH = np.array([6371.2, 6800., 7000., 6500., 6371.2]), np.array([0., 35., 90., 143., 180.]), np.array([0., 70., -120., 200., 10.])
KEYS = {'tdep': ('coeffs_tdep', 'order'), 'static': ('coeffs_static',), 'gsm': ('coeffs_gsm',), 'sm': ('coeffs_sm', 'breaks_delta', 'coeffs_delta'),
        'euler': ('breaks_euler', 'coeffs_euler', 'meta'), 'cal': ('breaks_cal', 'coeffs_cal')}


def subsets():
    return [c for n in range(7) for c in itertools.combinations(fixture.PARTS, n)]


def tasks(tier):
    k = 8
    return [('parts', dict(part=i, of=k, more=tier == 'thorough')) for i in range(k)] + [('meta', {})]


@contextlib.contextmanager
def recorder():
    """Drawing functions that only record what they are given."""
    import chaosmagpy.plot_utils as pu
    got, keep = [], {n: getattr(pu, n) for n in ('plot_maps', 'plot_timeseries', 'plot_power_spectrum')}
    try:
        for n in keep:
            setattr(pu, n, lambda *a, **k: got.append(a + tuple(k[x] for x in sorted(k))))
        yield got
    finally:
        for n, f in keep.items():
            setattr(pu, n, f)


def queries(rec, more):
    """name -> (needed parts, function of a model)."""
    from chaosmagpy.chaos import CHAOS
    q = {}

    def plot(fn):
        def run(m):
            with recorder() as got:
                fn(m)
            return got
        return run

    def shc(m, part):
        name = rec.tmp('m.shc')
        m.save_shcfile(name, model=part)
        x = CHAOS.from_shc(name)
        x = x.model_static if part == 'static' else x.model_tdep
        return [x.breaks, x.coeffs]

    gr = dict(radius=6800., theta=np.array([10., 90.]), phi=np.array([0., 50., 90.]), grid=True)
    for kw in ({}, dict(nmax=2), dict(deriv=1), dict(extrapolate='off'), dict(nmax=9), dict(nmax=1, deriv=2, extrapolate='constant')):
        q[f'ct{kw}'] = ('tdep',), lambda m, kw=kw: m.synth_coeffs_tdep(np.append(T, [-900., 900.]), **kw)
        q[f'vt{kw}'] = ('tdep',), lambda m, kw=kw: m.synth_values_tdep(T, R, TH, PH, **kw)
    q['vtg'] = ('tdep',), lambda m: m.synth_values_tdep(0.5, **gr)
    for kw in ({}, dict(nmax=4), dict(nmax=99), dict(deriv=1)):
        q[f'cs{kw}'] = ('static',), lambda m, kw=kw: m.synth_coeffs_static(**kw)
        q[f'vs{kw}'] = ('static',), lambda m, kw=kw: m.synth_values_static(R, TH, PH, **kw)
    q['vsg'] = ('static',), lambda m: m.synth_values_static(**gr)
    for s in (None, 'external', 'internal', 'all'):
        for n in (None, 1, 2, 5):
            if s != 'all':
                q[f'cg{s}{n}'] = ('gsm',), lambda m, s=s, n=n: m.synth_coeffs_gsm(T, source=s, nmax=n)
                q[f'cm{s}{n}'] = ('sm',), lambda m, s=s, n=n: m.synth_coeffs_sm(T, source=s, nmax=n)
                q[f'cmr{s}{n}'] = ('sm',), lambda m, s=s, n=n: m.synth_coeffs_sm(T, source=s, nmax=n, rc=-7.5)
            q[f'vg{s}{n}'] = ('gsm',), lambda m, s=s, n=n: m.synth_values_gsm(T, R, TH, PH, source=s, nmax=n)
            q[f'vm{s}{n}'] = ('sm',), lambda m, s=s, n=n: m.synth_values_sm(T, R, TH, PH, source=s, nmax=n)
            q[f'vmr{s}{n}'] = ('sm',), lambda m, s=s, n=n: m.synth_values_sm(T, R, TH, PH, source=s, nmax=n, rc_e=3., rc_i=1.)
        q[f'vgg{s}'] = ('gsm',), lambda m, s=s: m.synth_values_gsm(0.5, source=s, **gr)
        q[f'vmg{s}'] = ('sm',), lambda m, s=s: m.synth_values_sm(0.5, source=s, **gr)
        if more or s == 'internal':
            for ref, need in (('gsm', ('gsm',)), ('SM', ('sm',)), ('all', ('gsm', 'sm')), (None, ('gsm', 'sm'))):
                q[f'pe{s}{ref}'] = need, plot(lambda m, s=s, ref=ref: m.plot_maps_external(0.5, 6800., reference=ref, source=s))
    q['cgo'] = ('gsm',), lambda m: m.synth_coeffs_gsm(np.append(T, [-4000., 5000.]))
    q['vgo'] = ('gsm',), lambda m: m.synth_values_gsm(T + 1000., R, TH, PH, source='all')
    q['cmo'] = ('sm',), lambda m: m.synth_coeffs_sm(np.append(T, [-4000., 5000.]), rc=2.)
    q['vmo'] = ('sm',), lambda m: m.synth_values_sm(T + 1000., R, TH, PH, source='all', rc_e=2., rc_i=1.)
    for s in fixture.SATS:
        for kw in ({}, dict(dim=2), dict(deriv=1), dict(extrapolate='off')):
            q[f'eu{s}{kw}'] = ('euler',), lambda m, s=s, kw=kw: m.synth_euler_angles(T, s, **kw)
    q['eux'] = ('never',), lambda m: m.synth_euler_angles(T, 'delta')
    q['pt'] = ('tdep',), plot(lambda m: m.plot_timeseries_tdep(6800., 30., 40.))
    q['pt1'] = ('tdep',), plot(lambda m: m.plot_timeseries_tdep(6800., 30., 40., deriv=1, nmax=2))
    q['pm'] = ('tdep',), plot(lambda m: m.plot_maps_tdep(0.5, 6800.))
    q['pm1'] = ('tdep',), plot(lambda m: m.plot_maps_tdep(0.5, 6800., deriv=1, nmax=2))
    q['ps'] = ('static',), plot(lambda m: m.plot_maps_static(6800.))
    q['ps1'] = ('static',), plot(lambda m: m.plot_maps_static(6800., nmax=4))
    q['ft'] = ('tdep',), lambda m: shc(m, 'tdep')
    q['fs'] = ('static',), lambda m: shc(m, 'static')
    q['fx'] = ('never',), lambda m: m.save_shcfile(rec.tmp('m.shc'), model='gsm')
    src = fixture.PARTS[:4]
    for n in range(1, 5):
        for names in itertools.combinations(src, n):
            q[f'call{names}'] = names, lambda m, names=names: m(T, R, TH, PH, source_list=list(names))
    q['callall'] = src, lambda m: m(T, R, TH, PH)
    q['callv'] = src, lambda m: m(T, R, TH, PH, verbose=True, rc_e=2., rc_i=1.)
    q['callint'] = src[:2], lambda m: m(T, R, TH, PH, source_list='internal', nmax_static=4)
    q['callext'] = src[2:], lambda m: m(T, R, TH, PH, source_list='external')
    # objects behind the parts
    q['ot'] = ('tdep',), lambda m: [m.model_tdep.power_spectrum(T), m.model_tdep.coeffs, m.model_tdep.breaks] if m.model_tdep else missing(m.model_tdep)
    q['os'] = ('static',), lambda m: [m.model_static.power_spectrum(T[:1]), m.model_static.coeffs, m.model_static.breaks] if m.model_static else missing(m.model_static)
    q['og'] = ('gsm',), lambda m: [m.coeffs_gsm, m.n_gsm] if m.coeffs_gsm is not None else missing(m.n_gsm)
    q['om'] = ('sm',), lambda m: [m.coeffs_sm, m.n_sm] + [d[k] for d in (m.breaks_delta, m.coeffs_delta) for k in ('q10', 'q11', 's11')] \
        if m.coeffs_sm is not None else missing(m.n_sm)
    q['oe'] = ('euler',), lambda m: [x for s in fixture.SATS for x in (m.model_euler[s].coeffs, m.model_euler[s].breaks, m.model_euler[s].meta['Euler_prerotation'])] \
        if m.model_euler else missing(m.model_euler)
    q['oc'] = ('cal',), lambda m: [m.model_cal['cryosat-2_1'].coeffs, m.model_cal['cryosat-2_1'].breaks, m.model_cal['cryosat-2_1'].synth_coeffs(T)] \
        if m.model_cal else missing(m.model_cal)
    return q


def missing(x):
    if x is not None:
        raise AssertionError(f'absent part is {x!r}')
    raise ValueError('absent part is None')


def build(parts, minimal):
    from chaosmagpy.chaos import CHAOS
    k = fixture.kwargs()
    if minimal:
        keep = {x for p in parts for x in KEYS[p]}
        k = {a: b if a == 'breaks' or a in keep else None for a, b in k.items()}
        if not {'tdep', 'static'} & set(parts):
            k['breaks'] = None
        return CHAOS(k.pop('breaks'), k.pop('order'), name='T', **k)
    return CHAOS(name='T', **{a: b for a, b in k.items() if a == 'breaks' or a in {x for p in parts for x in KEYS[p]}})


def reply(f, m):
    """Answer of a query, and whether it warns."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        got = fixture.snapshot(f(m))
    return got, any(issubclass(x.category, UserWarning) for x in w)


def parts(rec, part, of, more):
    fixture.use_rc(rec.tmp('rc.h5'))
    full = fixture.model()
    q = queries(rec, more)
    want = {n: reply(f, full) for n, (need, f) in q.items() if need != ('never',)}
    for have in subsets()[part::of]:
        for minimal in (False, True):
            m = build(have, minimal)
            before = fixture.snapshot(m)
            rec.ok('T' in str(m), f'str:{have}', 'no name')
            for n, (need, f) in q.items():
                fid = f'{"+".join(have)}:{minimal}:{n}'
                if set(need) <= set(have):
                    try:
                        got, warned = reply(f, m)
                    except Exception as err:
                        rec.fail(fid, f'raises {err!r}')
                    else:
                        rec.ok(got == want[n][0], fid, 'differs from the complete model')
                        if {'tdep', 'static'} & set(have):     # the model period is that of the internal parts
                            rec.ok(warned == want[n][1], fid, f'warns: {warned}, the complete model: {want[n][1]}')
                else:
                    try:
                        f(m)
                        rec.fail(fid, 'absent part answered')
                    except ValueError as err:
                        rec.ok(len(str(err)) > 8, fid, 'error without description')
                    except Exception as err:
                        rec.fail(fid, f'raises {err!r} instead of ValueError')
                rec.case(fid)
            rec.ok(fixture.snapshot(m) == before, f'mut:{have}:{minimal}', 'model changed')


def meta(rec):
    """Metadata that are missing, partial or for fewer satellites than there are: the rest of the model answers, nothing is made up."""
    from chaosmagpy.chaos import CHAOS
    rows = np.array([[1., 2., 3.], [-4., 5., 6.], [7., -8., 9.]])
    metas = {'none': None, 'empty': {}, 'params': dict(params={}), 'pnone': dict(params=None), 'null': dict(params=dict(Euler_prerotation=None)),
             'other': dict(x=1), **{f'rows{n}': dict(params=dict(Euler_prerotation=rows[:n])) for n in range(4)},
             **{f'list{n}': dict(params=dict(Euler_prerotation=rows[:n].tolist())) for n in range(4)}}
    for name, mt in metas.items():
        k = fixture.kwargs()
        k['meta'] = mt
        try:
            m = CHAOS(name='T', **k)
        except Exception as err:
            rec.fail(f'meta:{name}', f'{err!r}')
            continue
        n = int(name[4:]) if name[4:].isdigit() else 0
        full = fixture.model()
        for i, s in enumerate(fixture.SATS):
            rec.case((name, s))
            pre = m.model_euler[s].meta['Euler_prerotation']
            rec.ok(pre is None if i >= n else pre is not None and np.array_equal(pre, rows[i]), f'meta:{name}:{s}', f'pre-rotation {pre} for satellite {i} with {n} rows')
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                got = m.synth_euler_angles(T, s)
            rec.ok(any('rotation' in str(x.message) for x in w) == (i < n), f'meta:{name}:{s}:warn', f'{[str(x.message) for x in w]}')
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                rec.ok(np.array_equal(got, full.synth_euler_angles(T, s)), f'meta:{name}:{s}:angles', 'angles differ')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            a, b = m(T, R, TH, PH, rc_e=1., rc_i=2.), full(T, R, TH, PH, rc_e=1., rc_i=2.)
        rec.ok(np.array_equal(a, b), f'meta:{name}:field', 'field differs')
