"""C12: GSM and SM coefficients in the geographic frame."""
import itertools
import warnings
import numpy as np
from mc import ref, fixture, fault

PROPERTY, LEVEL = 'C12', 'exploration'
RULE = ('every (time of the alphabet: RC samples and between, offset breaks and their neighbours, outside the offset period; external or induced; RC from '
        'HDF5 file, text file, supplied scalar or array; requested degree; coefficient vector out of a basis plus dense ones; spectrum file out of '
        'the shipped ones and rewritten ones of all layouts) is compared with the defining formula evaluated element by element; batches of '
        'times are compared with single times.')
ASSUMPTIONS = ['the RC file shipped with the package is absent in this tree, so files written by the check are configured']
TIMES = sorted({*fixture.RC_TIME, *np.concatenate(list(fixture.DELTA.values())), -479.9, -200.0001, 9.5, 0.25, 60.0, 395., 405.5, 379.999, -300.1,
                float(np.nextafter(10., -1)), float(np.nextafter(-200., -1e9)), float(np.nextafter(390., 1e9)), -515.})


def tasks(tier):
    more = tier == 'thorough'
    out = [('formula', dict(kind=k, source=s, more=more)) for k in ('h5', 'dat', 'given', 'scalar') for s in ('external', 'internal')]
    out += [('basis', dict(i=i)) for i in range(8)] + [('gsm', dict(source=s)) for s in ('external', 'internal')]
    out += [('spectra', dict(which=w)) for w in ('gsm', 'sm')] + [('batches', {}), ('coverage', {}), ('dipole', {}), ('warns', {}), ('bins', dict(more=more))] + [('field', dict(source=s)) for s in (None, 'all', 'external', 'internal')]
    out += [('large', dict(sizes=s)) for s in ([99, 100, 101, 127, 128, 129, 500, 512], [999, 1000, 1001, 1023, 1024, 1025, 1441], [2047, 4096, 4097], [8784, 10007]) + (([20011], [50021]) if more else ())]
    out += [('many', {})]
    return out


def expected_sm(t, source, c, rc, k):
    R = fixture.rotation(t, 'sm', False)
    d = np.array([fixture.delta_value(t, q, k) for q in ('q10', 'q11', 's11')])
    if source == 'external':
        return R @ np.concatenate([rc*c[:3] + d, c[3:]])
    out = fixture.rotation(t, 'sm', True) @ np.concatenate([d, c[3:]])
    out[:3] += R[:3, :3] @ (rc*c[:3])
    return out


def model(coeffs_sm=None, coeffs_gsm=None):
    from chaosmagpy.chaos import CHAOS
    k = fixture.kwargs()
    if coeffs_sm is not None:
        k['coeffs_sm'] = coeffs_sm
    if coeffs_gsm is not None:
        k['coeffs_gsm'] = coeffs_gsm
    return CHAOS(name='T', **k), k


def given(t):
    return 3.25 + 0.01*t


def formula(rec, kind, source, more):
    m, k = model()
    if kind in ('h5', 'dat'):
        fixture.use_rc(rec.tmp('rc.' + kind), kind)
    for t in TIMES:
        for nmax in (None, 1, 2, 3):
            if kind in ('h5', 'dat'):
                rc, kw = fixture.rc_value(t, source), {}
            else:
                rc = given(t) if kind == 'given' else -17.5
                kw = dict(rc=np.array(rc) if kind == 'given' else rc)
            want = expected_sm(t, source, k['coeffs_sm'], rc, k)[:{1: 3}.get(nmax, 8)]
            for form in (float(t), np.array(t), np.array([t])):
                got = m.synth_coeffs_sm(form, nmax=nmax, source=source, **kw)
                rec.close(f'{kind}:{source}:{t}:{nmax}:{np.shape(form)}', got, want.reshape(np.shape(form) + want.shape), 1e-10, 1e-10, what='SM coefficients')
                rec.case((kind, source, t, nmax, np.shape(form), type(form).__name__))
    if source == 'external':     # the default source
        rc = -4.
        for t in TIMES[::3]:
            rec.close(f'default:{t}', m.synth_coeffs_sm(t, rc=rc), expected_sm(t, 'external', k['coeffs_sm'], rc, k), 1e-10, 1e-10, what='default source')


def basis(rec, i):
    """Each reference coefficient alone: neither confused nor dropped."""
    c = np.zeros(8)
    c[i] = 1.
    m, k = model(c.copy(), c.copy())
    for t in TIMES[::2]:
        for rc in (0., 1., -25.):
            for source in ('external', 'internal'):
                rec.close(f'sm:{i}:{t}:{rc}:{source}', m.synth_coeffs_sm(t, source=source, rc=rc), expected_sm(t, source, c, rc, k), 1e-10, 1e-10, what='SM coefficients')
                rec.case((i, t, rc, source))
        for source in ('external', 'internal'):
            rec.close(f'gsm:{i}:{t}:{source}', m.synth_coeffs_gsm(t, source=source), fixture.rotation(t, 'gsm', source == 'internal')[:, i], 1e-10, 1e-12, what='GSM coefficients')
    # each offset alone
    for q in ('q10', 'q11', 's11'):
        from chaosmagpy.chaos import CHAOS
        k = fixture.kwargs()
        for o in k['coeffs_delta']:
            if o != q:
                k['coeffs_delta'][o] = 0*k['coeffs_delta'][o]
        k['coeffs_sm'] = c.copy()
        m = CHAOS(name='T', **{a: b for a, b in k.items()})
        for t in TIMES[i % 3::3]:
            for source in ('external', 'internal'):
                rec.close(f'delta:{q}:{i}:{t}:{source}', m.synth_coeffs_sm(t, source=source, rc=2.), expected_sm(t, source, c, 2., k), 1e-10, 1e-10, what='SM offsets')
                rec.case((q, i, t, source))


def gsm(rec, source):
    c = ref.lcg(8, 17, -20, 20)
    for coeffs in (None, c):
        m, k = model(coeffs_gsm=coeffs)
        g = k['coeffs_gsm']
        for t in TIMES + [-3000., 8000.25, 0.]:
            for nmax in (None, 1, 2, 5):
                want = (fixture.rotation(t, 'gsm', source == 'internal') @ g)[:{1: 3}.get(nmax, 8)]
                for form in (float(t), np.array([[t]])):
                    got = m.synth_coeffs_gsm(form, nmax=nmax, source=source)
                    rec.close(f'gsm:{source}:{t}:{nmax}:{np.shape(form)}:{coeffs is None}', got, want.reshape(np.shape(form) + want.shape), 1e-10, 1e-10, what='GSM coefficients')
                    rec.case((source, t, nmax, np.shape(form), coeffs is None))
            if source == 'external':
                rec.close(f'default:{t}', m.synth_coeffs_gsm(t), fixture.rotation(t, 'gsm', False) @ g, 1e-10, 1e-10, what='default source')


def spectra(rec, which):
    """Rewritten spectrum files: scaled or not, per element or common frequencies, unsorted, few components, odd dipole formats."""
    from chaosmagpy import basicConfig
    import chaosmagpy as cp
    m, k = model(coeffs_gsm=ref.lcg(8, 3, -9, 9))
    for scaled, common, K, seed in itertools.product((True, False, np.array(True), np.array(False)), (False, True), (1, 4, 9), (1, 2)):
        def one(s):
            f = np.abs(ref.lcg(K if common else K*64, s, 0, 3)).reshape((K,) if common else (K, 8, 8))
            f[0] = 0.
            sp = (ref.lcg(K*64, s+1) + 1j*ref.lcg(K*64, s+2)).reshape(K, 8, 8)
            return f, sp
        (f, s), (fi, si) = one(seed), one(seed+5)
        p = rec.tmp('s.npz')
        np.savez(p, frequency=f, spectrum=s, frequency_ind=fi, spectrum_ind=si, scaled=scaled, dipole=basicConfig['params.dipole'], start_date=123., step=1., N=7, filter=K)
        basicConfig[f'file.{which.upper()}_spectrum'] = p

        def rot(t, ind):
            F, S = (fi, si) if ind else (f, s)
            F = F.reshape(-1, 1, 1) if F.ndim == 1 else F
            w = np.ones(F.shape) if bool(scaled) else np.where(F == 0, 1., 2.)
            ph = 2*np.pi*F*t
            return np.sum(w*(S.real*np.cos(ph) - S.imag*np.sin(ph)), axis=0)
        for t in (0., 13.7, -479., 301.25):
            tag = f'{which}:{scaled}:{common}:{K}:{seed}:{t}'
            rec.case(tag)
            if which == 'gsm':
                for src in ('external', 'internal'):
                    rec.close(f'{tag}:{src}', m.synth_coeffs_gsm(t, source=src), rot(t, src == 'internal') @ k['coeffs_gsm'], 1e-10, 1e-10, what='GSM with a rewritten spectrum')
            else:
                c = k['coeffs_sm']
                d = np.array([fixture.delta_value(t, q, k) for q in ('q10', 'q11', 's11')])
                rec.close(f'{tag}:e', m.synth_coeffs_sm(t, rc=5.), rot(t, False) @ np.concatenate([5*c[:3] + d, c[3:]]), 1e-10, 1e-10, what='SM with a rewritten spectrum')
                want = rot(t, True) @ np.concatenate([d, c[3:]])
                want[:3] += rot(t, False)[:3, :3] @ (5*c[:3])
                rec.close(f'{tag}:i', m.synth_coeffs_sm(t, rc=5., source='internal'), want, 1e-10, 1e-10, what='induced SM with a rewritten spectrum')
    # spectra computed by the package itself, degree one only
    from chaosmagpy import coordinate_utils as cu
    p = rec.tmp('own.npz')
    cu.rotate_gauss_fft(1, 1, N=48, reference=which, save_to=p, qfunc=lambda f, k: 0*f + 0.25)
    basicConfig[f'file.{which.upper()}_spectrum'] = p
    m1, _ = model(ref.lcg(3, 5), ref.lcg(3, 6))
    base = cu.basevectors_gsm if which == 'gsm' else cu.basevectors_sm
    for h in (0, 7, 13, 40, 47):
        t = h/24
        R = cu.rotate_gauss(1, 1, *base(np.array(t)))
        if which == 'gsm':
            rec.close(f'own:{h}', m1.synth_coeffs_gsm(t), R @ ref.lcg(3, 6), 1e-9, 1e-9, what='degree-one GSM model')
            rec.close(f'owni:{h}', m1.synth_coeffs_gsm(t, source='internal'), .25*R @ ref.lcg(3, 6), 1e-9, 1e-9, what='degree-one GSM model, induced')
        else:
            d = np.array([fixture.delta_value(t, q) for q in ('q10', 'q11', 's11')])
            c = ref.lcg(3, 5)
            rec.close(f'own:{h}', m1.synth_coeffs_sm(t, rc=2.), R @ (2*c + d), 1e-9, 1e-9, what='degree-one SM model')
            rec.close(f'owni:{h}', m1.synth_coeffs_sm(t, rc=2., source='internal'), .25*R @ d + R @ (2*c), 1e-9, 1e-9, what='degree-one SM model, induced')
        rec.case((which, 'own', h))


def batches(rec):
    """Batches equal single times; supplied RC values broadcast with time."""
    fixture.use_rc(rec.tmp('rc.h5'))
    m, k = model()
    sel = [-480., -479., 0., 10., 0.25, 390., 399., 410.]
    for g in list(itertools.product(sel, repeat=2)) + list(itertools.permutations(sel[1:6], 3)):
        t = np.array(g)
        for src in ('external', 'internal'):
            one = np.array([m.synth_coeffs_sm(x, source=src) for x in g])
            rec.close(f'b:{g}:{src}', m.synth_coeffs_sm(t, source=src), one, 1e-12, 1e-12, what='batch of times')
            rec.case((g, src))
    t = np.array(sel).reshape(2, 4)
    for src in ('external', 'internal'):
        for rc in (7., np.array(7.), np.full((2, 4), 7.), np.full((4,), 7.), np.full((2, 1), 7.), [7.]*4, 7):
            got = m.synth_coeffs_sm(t, source=src, rc=rc)
            want = [[expected_sm(x, src, k['coeffs_sm'], 7., k) for x in row] for row in t]
            rec.close(f'rc:{src}:{np.shape(rc)}:{type(rc)}', got, want, 1e-10, 1e-10, what='supplied RC values')
        r = ref.lcg(8, 9, -30, 30).reshape(2, 4)
        want = [[expected_sm(x, src, k['coeffs_sm'], y, k) for x, y in zip(a, b)] for a, b in zip(t, r)]
        keep = r.copy()
        rec.close(f'rcv:{src}', m.synth_coeffs_sm(t, source=src, rc=r), want, 1e-10, 1e-10, what='RC value per time')
        rec.ok(np.array_equal(keep, r), f'rcm:{src}', 'RC array modified')
        g = m.synth_coeffs_gsm(t, source=src)
        rec.close(f'g:{src}', g, [[m.synth_coeffs_gsm(x, source=src) for x in a] for a in t], 1e-12, 1e-12, what='batch of times, GSM')


def large(rec, sizes):
    """Many times at once, sorted, reversed and shuffled: the values of single times."""
    fixture.use_rc(rec.tmp('rc.h5'))
    m, k = model()
    base = np.array(TIMES)
    R = {(w, i): np.array([fixture.rotation(t, w, i) for t in base]) for w in ('gsm', 'sm') for i in (False, True)}
    one = {s: np.array([expected_sm(t, s, k['coeffs_sm'], fixture.rc_value(t, s), k) for t in base]) for s in ('external', 'internal')}
    inside = (base >= fixture.RC_TIME[0]) & (base <= fixture.RC_TIME[-1])
    base, one = base[inside], {s: v[inside] for s, v in one.items()}
    g = {s: (R['gsm', s == 'internal'] @ k['coeffs_gsm'])[inside] for s in one}
    for n in sizes:
        order = {'sorted': np.sort(np.arange(n)*base.size//n), 'down': np.sort(np.arange(n)*base.size//n)[::-1], 'mixed': (np.arange(n)*7) % base.size}
        for name, ix in order.items():
            for s in ('external', 'internal'):
                rec.case((n, name, s), n=n)
                rec.close(f'large:sm:{n}:{name}:{s}', m.synth_coeffs_sm(base[ix], source=s), one[s][ix], 1e-10, 1e-10, what='many times, SM')
                rec.close(f'large:gsm:{n}:{name}:{s}', m.synth_coeffs_gsm(base[ix], source=s), g[s][ix], 1e-10, 1e-10, what='many times, GSM')
                if n % 4 == 0:
                    rec.close(f'large2:sm:{n}:{name}:{s}', m.synth_coeffs_sm(base[ix].reshape(4, -1), source=s), one[s][ix].reshape(4, n//4, 8), 1e-10, 1e-10, what='many times, SM')
                    rec.close(f'large2:gsm:{n}:{name}:{s}', m.synth_coeffs_gsm(base[ix].reshape(-1, 2), source=s), g[s][ix].reshape(n//2, 2, 8), 1e-10, 1e-10, what='many times, GSM')


def coverage(rec):
    m, k = model()
    lo, hi = fixture.RC_TIME[0], fixture.RC_TIME[-1]
    for kind in ('h5', 'dat'):
        fixture.use_rc(rec.tmp('rc.' + kind), kind)
        for t in (lo - 1e-6, lo - 1000., hi + 1e-6, hi + 365., np.nextafter(lo, -1e9), np.nextafter(hi, 1e9)):
            for form in (t, np.array([t]), np.array([0., t]), np.array([[t, 0.], [1., 2.]])):
                for src in ('external', 'internal'):
                    rec.raises(f'out:{kind}:{t}:{np.shape(form)}:{src}', ValueError, m.synth_coeffs_sm, form, source=src, what='time outside the RC coverage')
                    rec.case((kind, t, np.shape(form), src))
                rec.raises(f'outv:{kind}:{t}:{np.shape(form)}', ValueError, m.synth_values_sm, form, 7000., 10., 20., what='time outside the RC coverage')
            rec.close(f'given:{kind}:{t}', m.synth_coeffs_sm(t, rc=1.), expected_sm(t, 'external', k['coeffs_sm'], 1., k), 1e-10, 1e-10, what='supplied RC outside the file')
    from chaosmagpy import basicConfig
    # the file is read anew for every request
    p = rec.tmp('rc.h5')
    fixture.use_rc(p)
    a = m.synth_coeffs_sm(0.25)
    import h5py
    with h5py.File(p, 'r+') as f:
        f['RC_e'][:] = 2*fixture.RC_E
    b = m.synth_coeffs_sm(0.25)
    rec.close('reread', b, expected_sm(0.25, 'external', k['coeffs_sm'], 2*fixture.rc_value(0.25, 'e'), k), 1e-10, 1e-10, what='rewritten RC file')
    basicConfig['file.RC_index'] = fixture.rc_file(rec.tmp('other.dat'), 'dat')
    rec.close('switch', m.synth_coeffs_sm(0.25), a, 1e-12, 1e-12, what='other RC file')
    for src in ('all', 'Internal', 'ext', 'induced'):
        rec.raises(f'src:{src}', ValueError, m.synth_coeffs_sm, 0., source=src, rc=1., what=f'source {src!r}')
        rec.raises(f'gsrc:{src}', ValueError, m.synth_coeffs_gsm, 0., source=src, what=f'source {src!r}')


def dipole(rec):
    """Spectra of another dipole than the configured one are refused."""
    from chaosmagpy import basicConfig
    m, k = model()
    d = np.array(basicConfig['params.dipole'])
    for i in range(3):
        e = d.copy()
        e[i] += 0.1
        basicConfig['params.dipole'] = e
        rec.raises(f'gsm:{i}', Exception, m.synth_coeffs_gsm, 0., what='GSM with another dipole')
        rec.raises(f'sm:{i}', Exception, m.synth_coeffs_sm, 0., rc=1., what='SM with another dipole')
        rec.case(i)
    basicConfig['params.dipole'] = d
    m.synth_coeffs_gsm(0.)
    m.synth_coeffs_sm(0., rc=1.)


def warns(rec):
    """A warning exactly for times outside the offset period (SM) and the model period (GSM)."""
    m, k = model()
    for t in TIMES + [-500., 400., -500.5, 400.5, 380., 380.5, -480.5]:
        for form in (t, np.array([0., t])):
            for fn, a, b, kw in ((m.synth_coeffs_sm, -480., 380., dict(rc=1.)), (m.synth_coeffs_gsm, -500., 400., {})):
                with warnings.catch_warnings(record=True) as log:
                    warnings.simplefilter('always')
                    fn(form, **kw)
                out = not a <= t <= b
                rec.ok(out == any(fault.kind(w.message) == 'period' for w in log), f'warn:{fn.__name__}:{t}:{np.shape(form)}', f'warnings {[str(w.message)[:70] for w in log]}')
                rec.case((fn.__name__, t, np.shape(form)))
    # the period is that of the internal field that the model has
    for parts in (('gsm',), ('tdep', 'gsm'), ('static', 'gsm'), ('tdep', 'static', 'gsm'), ('sm', 'gsm')):
        m = fixture.model(parts)
        for t in (-1e5, -500.5, -500., -3., 400., 400.5, 9e4):
            with warnings.catch_warnings(record=True) as log:
                warnings.simplefilter('always')
                got = m.synth_coeffs_gsm(t)
            out = ('tdep' in parts or 'static' in parts) and not -500. <= t <= 400.
            rec.ok(out == any(fault.kind(w.message) == 'period' for w in log), f'parts:{parts}:{t}', f'warnings {[str(w.message)[:70] for w in log]}')
            rec.close(f'partsv:{parts}:{t}', got, fixture.rotation(t, 'gsm', False) @ fixture.kwargs()['coeffs_gsm'], 1e-10, 1e-10, what='GSM coefficients')
            rec.case((parts, t))


def field(rec, source):
    """The field of the coefficients: every source, with an index for each part, given or from the file."""
    m, k = model()
    fixture.use_rc(rec.tmp('rc.h5'), 'h5')
    parts = ('external', 'internal') if source in (None, 'all') else (source,)
    pts = [(6371.2, 33., 10.), (6900., 120.5, -75.)]
    for t, (r, th, ph), nmax in itertools.product(TIMES[::2], pts, (None, 1, 2)):
        n = nmax or 2
        want = sum(ref.field((fixture.rotation(t, 'gsm', p == 'internal') @ k['coeffs_gsm'])[:n*(n+2)], ref.nm_list(1, n), r, th, ph, source=p) for p in parts)
        tag = f'{source}:{t}:{r}:{nmax}'
        rec.close(f'gsm:{tag}', np.ravel(m.synth_values_gsm(t, r, th, ph, nmax=nmax, source=source)), want, 1e-9, 1e-9, what='GSM field')
        for e, i in ((None, None), (7.5, -2.25), (None, 4.), (-3., None), (0., 0.)):
            want = 0.
            for p in parts:
                rc = e if p == 'external' else i
                rc = fixture.rc_value(t, p) if rc is None else rc
                want = want + ref.field(expected_sm(t, p, k['coeffs_sm'], rc, k)[:n*(n+2)], ref.nm_list(1, n), r, th, ph, source=p)
            kw = {} if source is None else dict(source=source)
            got = m.synth_values_sm(t, r, th, ph, rc_e=e, rc_i=i, nmax=nmax, **kw)
            rec.close(f'sm:{tag}:{e}:{i}', np.ravel(got), want, 1e-9, 1e-9, what='SM field')
            rec.case((tag, e, i))


def bins(rec, more):
    """Every number of offset bins from one up, each value in its own bin."""
    from chaosmagpy.chaos import CHAOS
    for nb in itertools.product((1, 2, 3) if not more else (1, 2, 3, 4), repeat=3):
        k = fixture.kwargs(('sm',))
        for i, (q, n) in enumerate(zip(('q10', 'q11', 's11'), nb)):
            k['breaks_delta'][q] = -450. + (800. + 10*i)/n*np.arange(n+1)
            k['coeffs_delta'][q] = ref.lcg(n, 3+i, -9, 9).reshape(1, -1)
        m = CHAOS(name='T', **k)
        T = np.unique(np.concatenate([np.concatenate([b, b-1e-6, b+1e-6]) for b in k['breaks_delta'].values()]))
        for src in ('external', 'internal'):
            got = m.synth_coeffs_sm(T, rc=1.5, source=src)
            want = [expected_sm(t, src, k['coeffs_sm'], 1.5, k) for t in T]
            rec.close(f'bins:{nb}:{src}', got, want, 1e-10, 1e-10, what='offset bins')
            rec.case((nb, src), n=T.size)


def many(rec):
    """Fields for many times and positions at once."""
    from mc.large import tiled
    fixture.use_rc(rec.tmp('rc.h5'))
    m = fixture.model()
    t = np.array([-300.5, 0.25, 120., 385., 1e-4, -100., 200.2])
    r, th, ph = 6400. + 100*np.arange(7.), np.array([0., 10., 90., 143.3, 180., 77., 50.]), np.array([0., -100., 400., 33., 1., 2., 180.])
    for source in (None, 'external', 'internal'):
        for f in (m.synth_values_gsm, m.synth_values_sm):
            tiled(rec, f'{f.__name__}:{source}', lambda *a: tuple(f(*a, source=source)), (t, r, th, ph), sizes=(1001, 2000), tol=1e-10)
