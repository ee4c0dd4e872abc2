"""C33: quantities derived from a model agree with its coefficients."""
import itertools
import warnings
import numpy as np
from mc import ref, fixture, fault

PROPERTY, LEVEL = 'C33', 'exploration'
RULE = ('every combination of spline order, model degree, requested degree (none, lower, equal, above), derivative, extrapolation option, source and time '
        'batch (inside, breaks, ends, outside): values against the coefficients returned for the same request (60-digit harmonics), lower degree against '
        'zeroed coefficients, spectra against their definition, warnings exactly for excessive degrees; the polynomial dictionary and its MAT file '
        'evaluated by an independent reader; Euler and calibration series at every bin, edge and outside.')
ASSUMPTIONS = ['the coefficients themselves are decided by C06, C07 and C12']
BR = np.array([-500., -100., 400.])
BATCH = [-100., (-500., 13.25, 400.), (-900., 0., 700.), ((399.5,), (500.,))]
OPTS = (None, 'off', 'constant', 'linear', 'spline', 1)


def tasks(tier):
    more = tier == 'thorough'
    out = [('values', dict(order=o, top=t, source=s, more=more)) for o in ((1, 2, 4) if not more else (1, 2, 3, 4, 6)) for t in ((1, 3) if not more else (1, 2, 3, 5))
           for s in ('internal', 'external')]
    out += [('parts', {}), ('spectra', {}), ('ppdict', {}), ('degenerate', {}), ('euler', {}), ('cal', {}), ('static', {}), ('many', {})]
    return out


def model(order, top, source='internal', pieces=2):
    from chaosmagpy.chaos import BaseModel
    c = ref.lcg(order*pieces*top*(top+2), 7*order+top, -90, 90).reshape(order, pieces, -1)
    for k in range(order):
        c[k] /= 300.**(order-1-k)
    return BaseModel('M', BR.copy(), order, c, source=source), c


def caught(fn, *a, **k):
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        r = fn(*a, **k)
    return r, [str(w.message) for w in log if not issubclass(w.category, DeprecationWarning)]


def excessive(log):
    return any(fault.kind(m) == 'degree' for m in log)


PTS = [(6371.2, 0., 10.), (7000., 90., -120.), (6000., 143.3, 200.)]


def values(rec, order, top, source, more):
    m, c = model(order, top, source)
    bases = {}
    for k in range(1, top+1):
        nms = ref.nm_list(1, k)
        bases[k] = np.array([ref.basis_field(nms, *p, source=source) for p in PTS])
    for nmax, deriv, opt, tb in itertools.product([None] + list(range(1, top+3)), [None] + list(range(order+1)), OPTS, BATCH):
        t = np.array(tb)
        k = min(nmax or top, top)
        tag = f'{order}:{top}:{source}:{nmax}:{deriv}:{opt}:{tb}'
        rec.case(tag)
        co, log = caught(m.synth_coeffs, t, nmax=nmax, deriv=deriv, extrapolate=opt)
        rec.ok(excessive(log) == ((nmax or 0) > top), f'warnc:{tag}', f'warnings {log}')
        full, log = caught(m.synth_coeffs, t, deriv=deriv, extrapolate=opt)
        rec.ok(not excessive(log), f'warnf:{tag}', f'warnings {log}')
        rec.close(f'lower:{tag}', co, full[..., :k*(k+2)], 0, 0, what='coefficients of lower degree')
        # field at all points for all times
        sh = t.shape + (1,)
        T = t.reshape(sh)
        r, th, ph = (np.array([p[i] for p in PTS]) for i in range(3))
        B, log = caught(m.synth_values, T, r, th, ph, nmax=nmax, deriv=deriv, extrapolate=opt)
        rec.ok(excessive(log) == ((nmax or 0) > top), f'warnv:{tag}', f'warnings {log}')
        want = np.einsum('pci,...i->c...p', bases[k], co)
        rec.close(f'field:{tag}', np.array(B), want, 1e-9, 1e-9*(1+np.nanmax(np.abs(np.append(want, 0.)))), what='field of the returned coefficients')
        zero = full.copy()
        zero[..., k*(k+2):] = 0.
        from chaosmagpy import model_utils as mu
        Z = mu.synth_values(zero[..., None, :], r, th, ph, source=source)
        rec.close(f'zero:{tag}', np.array(B), np.array(Z), 1e-9, 1e-9*(1+np.nanmax(np.abs(np.append(want, 0.)))), what='field of the coefficients with the higher degrees zeroed')
        if np.ndim(tb) == 0:
            G = m.synth_values(t, 6500., [10., 80.], [0., 100., 200.], nmax=k, deriv=deriv, grid=True, extrapolate=opt)
            P = m.synth_values(t, 6500., [[10.], [80.]], [[0., 100., 200.]], nmax=k, deriv=deriv, grid=False, extrapolate=opt)
            rec.close(f'grid:{tag}', np.array(G), np.array(P), 1e-12, 1e-9, what='grid option')


def parts(rec):
    """Fields of the parts of a CHAOS model against the coefficients it returns."""
    fixture.use_rc(rec.tmp('rc.h5'))
    m = fixture.model()
    r, th, ph = (np.array([p[i] for p in PTS]) for i in range(3))
    t = np.array([[-450.], [0.25], [390.]])

    def field(co, source):
        k = int(round(np.sqrt(co.shape[-1]+1)-1))
        B = np.array([ref.basis_field(ref.nm_list(1, k), *p, source=source) for p in PTS])
        return np.einsum('pci,...i->c...p', B, co)

    def same(fid, got, want):
        rec.case(fid)
        rec.close(fid, np.array(got), want, 1e-9, 1e-9*(1+np.abs(want).max()), what='field against coefficients')
    for nmax, deriv, opt in itertools.product((None, 1, 2, 3), (None, 1, 2), (None, 'constant')):
        same(f'tdep:{nmax}:{deriv}:{opt}', m.synth_values_tdep(t, r, th, ph, nmax=nmax, deriv=deriv, extrapolate=opt),
             field(m.synth_coeffs_tdep(t[:, 0], nmax=nmax, deriv=deriv, extrapolate=opt), 'internal'))
    for nmax in (None, 1, 4, 5):
        same(f'static:{nmax}', m.synth_values_static(r, th, ph, nmax=nmax), field(m.synth_coeffs_static(nmax=nmax), 'internal'))
    rc = ref.lcg(3, 5, -20, 20), ref.lcg(3, 6, -20, 20)
    for nmax in (None, 1, 2):
        for s in ('external', 'internal'):
            g = field(m.synth_coeffs_gsm(t[:, 0], nmax=nmax, source=s), s)
            same(f'gsm:{nmax}:{s}', m.synth_values_gsm(t, r, th, ph, nmax=nmax, source=s), g)
            q = field(m.synth_coeffs_sm(t[:, 0], nmax=nmax, source=s), s)
            same(f'sm:{nmax}:{s}', m.synth_values_sm(t, r, th, ph, nmax=nmax, source=s), q)
        for s in ('all', None):
            same(f'gsm:{nmax}:{s}', m.synth_values_gsm(t, r, th, ph, nmax=nmax, source=s),
                 sum(field(m.synth_coeffs_gsm(t[:, 0], nmax=nmax, source=x), x) for x in ('external', 'internal')))
            same(f'sm:{nmax}:{s}', m.synth_values_sm(t, r, th, ph, nmax=nmax, source=s),
                 sum(field(m.synth_coeffs_sm(t[:, 0], nmax=nmax, source=x), x) for x in ('external', 'internal')))
            same(f'smrc:{nmax}:{s}', m.synth_values_sm(t, r, th, ph, nmax=nmax, source=s, rc_e=rc[0][:, None], rc_i=rc[1][:, None]),
                 sum(field(m.synth_coeffs_sm(t[:, 0], nmax=nmax, source=x, rc=y), x) for x, y in (('external', rc[0]), ('internal', rc[1]))))
    for fn, k in ((m.synth_coeffs_gsm, 2), (m.synth_coeffs_sm, 2), (m.synth_coeffs_tdep, 3)):
        for nmax in (k, k+1, k+4):
            a, log = caught(fn, np.array([5., 20.]), nmax=nmax)
            rec.ok(excessive(log) == (nmax > k) and a.shape == (2, k*(k+2)), f'warn:{fn.__name__}:{nmax}', f'{a.shape} {log}')
    for nmax in (5, 6, 85):
        a, log = caught(m.synth_coeffs_static, nmax=nmax)
        rec.ok(excessive(log) == (nmax > 5) and a.shape == (35,), f'warnst:{nmax}', f'{a.shape} {log}')
    for s in ('both', 'ext', '', 'sm'):
        for fn, a in ((m.synth_values_gsm, (0., 7000., 1., 1.)), (m.synth_values_sm, (0., 7000., 1., 1.)), (m.synth_coeffs_gsm, (0.,))):
            rec.raises(f'source:{s}:{fn.__name__}', ValueError, fn, *a, source=s, what=f'source {s!r}')
    # the grid option
    for fn in (m.synth_values_gsm, m.synth_values_sm, m.synth_values_tdep):
        G = fn(0.25, 6500., [10., 80.], [0., 100., 200.], grid=True)
        P = fn(0.25, 6500., [[10.], [80.]], [[0., 100., 200.]])
        rec.close(f'grid:{fn.__name__}', np.array(G), np.array(P), 1e-12, 1e-9, what='grid option')
    G = m.synth_values_static(6500., [10., 80.], [0., 100., 200.], grid=True)
    rec.close('grid:static', np.array(G), np.array(m.synth_values_static(6500., [[10.], [80.]], [[0., 100., 200.]])), 1e-12, 1e-9, what='grid option')


def static(rec):
    """The static part does not depend on time and has no derivative."""
    m = fixture.model()
    c = fixture.kwargs()['coeffs_static'].ravel()
    for nmax in (None, 1, 3, 5):
        k = nmax or 5
        rec.close(f'c:{nmax}', m.synth_coeffs_static(nmax=nmax), c[:k*(k+2)], 0, 0, what='static coefficients')
        rec.close(f'd:{nmax}', m.synth_coeffs_static(nmax=nmax, deriv=1), np.zeros(k*(k+2)), 0, 0, what='derivative of the static part')
        rec.case(nmax)


def spectra(rec):
    import chaosmagpy as cp
    for (order, source), surf in itertools.product((((1, 'internal')), (4, 'internal'), (3, 'external')), (None, 7000.)):
        if surf:
            cp.basicConfig['params.r_surf'] = surf
        m, _ = model(order, 3, source)
        for radius, nmax, deriv, opt, tb in itertools.product((None, 6371.2, 3480., 8000), (None, 1, 3), (None, 1, 2), (None, 'constant'), BATCH):
            t = np.array(tb)
            co = m.synth_coeffs(t, nmax=nmax, deriv=deriv, extrapolate=opt)
            args = (t,) if radius is None else (t, radius)
            W = m.power_spectrum(*args, nmax=nmax, deriv=deriv, extrapolate=opt)
            REF = surf or 6371.2     # the configured reference radius
            r = radius if radius is not None else REF
            k = nmax or 3
            want = []
            for n in range(1, k+1):
                s = np.sum(co[..., n*n-1:(n+1)**2-1]**2, axis=-1)
                want.append((n+1)*s*(REF/r)**(2*n+4) if source == 'internal' else n*s*(r/REF)**(2*n-2))
            tag = f'{order}:{source}:{radius}:{nmax}:{deriv}:{opt}:{tb}:{surf}'
            rec.close(tag, W, np.stack(want, -1), 1e-10, 1e-12, what='spectrum of the model')
            rec.case(tag)
        cp.basicConfig.fullreset()


def ppval(pp, t):
    """Reader of the MATLAB pp-form: coefs has shape (dim*pieces, order), component running fastest."""
    order, pieces, dim = (int(np.squeeze(pp[k])) for k in ('order', 'pieces', 'dim'))
    b = np.ravel(pp['breaks'])
    c = np.asarray(pp['coefs'])
    assert c.shape == (dim*pieces, order) and b.size == pieces + 1, (c.shape, b.size)
    i = 0
    for j in range(pieces):
        if t >= b[j]:
            i = j
    return np.array([sum(c[dim*i+q, k]*(t-b[i])**(order-1-k) for k in range(order)) for q in range(dim)])


def ppdict(rec):
    import h5py
    from chaosmagpy.chaos import Base, BaseModel
    for order, pieces, dim in itertools.product((1, 2, 3, 4, 6), (1, 2, 3), (1, 3, 8)):
        br = np.array([-500., -100., 400., 450.])[:pieces+1]
        c = ref.lcg(order*pieces*dim, order+pieces, -5, 5).reshape(order, pieces, dim)
        for k in range(order):
            c[k] /= 300.**(order-1-k)
        for cls in (Base, BaseModel):
            if cls is BaseModel and dim == 1:
                continue
            m = cls('X', br.copy(), order, c.copy())
            tag = f'{cls.__name__}:{order}:{pieces}:{dim}'
            before = fixture.snapshot(m)
            pp = m.to_ppdict()
            rec.case(tag)
            rec.ok(pp['form'] == 'pp', f'form:{tag}', f'form {pp["form"]!r}')
            T = [br[0], br[-1]-1e-3, (br[0]+br[1])/2] + list(br[1:-1])
            path = rec.tmp('x.mat')
            m.save_matfile(path)
            m.save_matfile(path, path='/other')
            with h5py.File(path, 'r') as f:
                for key in ('pp', 'other'):
                    fpp = {k: np.asarray(f[key][k]).T for k in ('order', 'pieces', 'dim', 'breaks', 'coefs')}   # MATLAB stores transposed
                    form = ''.join(chr(int(x)) for x in np.ravel(f[key]['form'])) if f[key]['form'].dtype.kind in 'iu' else f[key]['form'][()]
                    rec.ok(form in ('pp', b'pp'), f'fform:{key}:{tag}', f'form {form!r}')
                    for t in T:
                        rec.close(f'file:{key}:{tag}:{t}', ppval(fpp, t), ref.pp_eval(c, br, t), 1e-12, 1e-12, what='MAT file')
            for t in T:
                rec.close(f'val:{tag}:{t}', ppval(pp, t), ref.pp_eval(c, br, t), 1e-12, 1e-12, what='exported polynomial')
                rec.close(f'own:{tag}:{t}', m.synth_coeffs(t), ppval(pp, t), 1e-10, 1e-10, what='polynomial against the model')
            pp['coefs'][:] = 0.     # a copy: changing it does not change the model
            pp['breaks'][:] = 0.
            rec.ok(fixture.snapshot(m) == before, f'alias:{tag}', 'model shares memory with the exported dictionary')


def degenerate(rec):
    """Models of one epoch: the exported break points are the model's own."""
    import h5py
    from chaosmagpy.chaos import BaseModel
    for i, (br, order) in enumerate(itertools.product(([0., 0.], [100.5, 100.5], [-500., -500.], [0., 1e-9], [7., 7., 8.]), (1, 2))):
        br = np.array(br)
        c = ref.lcg(order*(br.size-1)*8, 3, -5, 5).reshape(order, br.size-1, 8)
        m = BaseModel('S', br.copy(), order, c.copy())
        pp = m.to_ppdict()
        path = rec.tmp('s.mat')
        m.save_matfile(path)
        with h5py.File(path, 'r') as f:
            fpp = {k: np.asarray(f['pp'][k]).T for k in ('order', 'pieces', 'dim', 'breaks', 'coefs')}
        for name, q in (('dict', pp), ('file', fpp)):
            if rec.ok(np.array_equal(np.ravel(q['breaks']), br) and int(np.squeeze(q['pieces'])) == br.size-1, f'deg:{name}:{i}', f'breaks {q["breaks"]}'):
                rec.close(f'degc:{name}:{i}', np.asarray(q['coefs']).T.reshape(c.shape), c, 0, 0, what='coefficients')
        rec.case((tuple(br), order))


def euler(rec):
    m = fixture.model()
    k = fixture.kwargs()
    for s, (i, sat) in itertools.product((None,), enumerate(fixture.SATS)):
        b, c = k['breaks_euler'][sat], k['coeffs_euler'][sat]
        pre = k['meta']['params']['Euler_prerotation'][i]
        T = sorted(list(b) + [x+33.3 for x in b[:-1]] + [np.nextafter(x, -1e9) for x in b[1:]] + [b[0]-50., b[-1]+50.])
        for t in T:
            inside = b[0] <= t <= b[-1]
            for opt, deriv, dim in itertools.product((None, 'off', 'constant', 'linear'), (None, 0, 1), (None, 1, 3)):
                got, log = caught(m.synth_euler_angles, t, sat, extrapolate=opt, deriv=deriv, dim=dim)
                d = dim or 3
                if inside or opt != 'off':
                    want = np.zeros(d) if deriv else ref.pp_eval(c, b, min(max(t, b[0]), b[-1]))[:d]
                else:
                    want = np.full(d, np.nan)
                tag = f'{sat}:{t}:{opt}:{deriv}:{dim}'
                rec.case(tag)
                rec.close(f'val:{tag}', got, want, 1e-12, 0, what='Euler angles')
                rec.ok(any(fault.kind(x) == 'prerotation' for x in log) and any(fault.kind(x) == 'period' for x in log) == (not inside), f'warn:{tag}', f'warnings {log}')
                w = [x for x in log if fault.kind(x) == 'prerotation']
                rec.ok(w and all(f'{float(p):.3f}'.rstrip('0')[:5] in w[0] for p in pre), f'pre:{tag}', f'pre-rotation not reported: {w} {pre}')
        arr = m.synth_euler_angles(np.array([T[:2], T[-2:]]), sat)
        rec.close(f'arr:{sat}', arr, [[m.synth_euler_angles(x, sat) for x in T[:2]], [m.synth_euler_angles(x, sat) for x in T[-2:]]], 0, 0, what='array of times')
        rec.close(f'b:{sat}', m.model_euler[sat].synth_coeffs(np.array(T)), m.synth_euler_angles(np.array(T), sat), 0, 0, what='series of the satellite')
    for bad in ('delta', '', 'Alpha', None, 0):
        rec.raises(f'sat:{bad}', ValueError, m.synth_euler_angles, 0., bad, what=f'satellite {bad!r}')
    _, log = caught(m.synth_euler_angles, -350., 'alpha', dim=7)
    rec.ok(excessive(log), 'dim', 'no warning about the dimension')
    n = fixture.model(parts=('tdep', 'euler'))
    n2 = fixture.kwargs(('tdep', 'euler'))
    n2.pop('meta')
    from chaosmagpy.chaos import CHAOS
    _, log = caught(CHAOS(**n2).synth_euler_angles, -350., 'alpha')
    rec.ok(not any(fault.kind(x) == 'prerotation' for x in log), 'nopre', 'warning about absent pre-rotation')


def cal(rec):
    m = fixture.model()
    k = fixture.kwargs()
    for sat in k['breaks_cal']:
        b, c = k['breaks_cal'][sat], k['coeffs_cal'][sat]
        for t in list(b) + [b[0]+10., b[1]+10., b[0]-10., b[-1]+10.]:
            got, log = caught(m.model_cal[sat].synth_coeffs, t)
            rec.case((sat, t))
            rec.close(f'{sat}:{t}', got, ref.pp_eval(c, b, min(max(t, b[0]), b[-1])), 1e-13, 0, what='calibration parameters')
            rec.ok(any(fault.kind(x) == 'period' for x in log) == (not b[0] <= t <= b[-1]), f'warn:{sat}:{t}', f'warnings {log}')


def many(rec):
    """Many times and positions at once."""
    from mc.large import tiled
    for source in ('internal', 'external'):
        m, _ = model(4, 3, source)
        t = np.array([-500., -300., -100., 1e-4, 33.3, 399., 400.])
        r, th, ph = np.array([6371.2, 6500., 7000., 6000., 2e5, 6400., 6800.]), np.array([0., 12., 90., 143.3, 180., 77., 50.]), np.array([0., -100., 400., 33., 1., 2., 180.])
        for nmax, d in ((None, None), (2, 1)):
            tiled(rec, f'v:{source}:{nmax}', lambda *a: tuple(m.synth_values(*a, nmax=nmax, deriv=d)), (t, r, th, ph), tol=1e-11)
            tiled(rec, f's:{source}:{nmax}', lambda x: m.power_spectrum(x, 5000., nmax=nmax, deriv=d), (t,), tol=1e-11)
    m = fixture.model()
    for s in fixture.SATS:
        b = fixture.kwargs()['breaks_euler'][s]
        tiled(rec, f'euler:{s}', lambda x: m.synth_euler_angles(x, s), (np.linspace(b[0], b[-1], 13),))
