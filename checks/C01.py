"""C01: synth_values is -grad V for every basis function, window, source and position.

By linearity in the coefficients the unit vectors exhaust the coefficient space; every
(source, nmin, nmax, mmax) window up to the bound is enumerated with every position of the
alphabet, against a 60-digit pole-free evaluation of the harmonics (mc/ref.py)."""
import itertools
import numpy as np
from mc import ref

PROPERTY, LEVEL = 'C01', 'exploration'
RULE = ('a case is (source, degree/order window, argument style, unit coefficient, position); enumerated without '
        'repetition; non-trivial when the reference field is not identically zero')
ASSUMPTIONS = ['field synthesis is linear in the coefficients (checked on generic combinations)',
               'positions outside the alphabet behave like those in it']
THETA = [1e-12, 1e-9, 1e-7, 1e-4, 0.03, 1.0, 33.3, 60.0, 89.999999, 90.0, 90.1, 127.7, 179.0, 179.999, 180-1e-7, 180-1e-11]
POLES = [0.0, 180.0]
PHI = [-725.0, -180.0, -90.0, -33.0, 0.0, 13.7, 90.0, 180.0, 271.0, 360.0]
RAD = [3485.0, 6371.2, 6800.0, 15000.0]


def points(which):
    th = {'in': THETA, 'poles': POLES, 'mix': POLES + THETA[::3]}[which]
    pts = []
    for i, t in enumerate(th):
        for j, p in enumerate(PHI):
            pts.append((RAD[(i + j) % 4], t, p))
    for r in RAD:
        pts.append((r, th[-1], 21.0))
    return pts


def tasks(tier):
    N = 6 if tier != 'thorough' else 9
    out = [('windows', dict(nmax=n, source=s, full=tier == 'thorough')) for n in range(1, N+1) for s in ('internal', 'external')]
    for s in ('internal', 'external'):
        for lo, hi in [(7, 13), (14, 20)]:
            out.append(('degrees', dict(lo=lo, hi=hi, source=s)))
        out.append(('high', dict(nmax=60, source=s, thetas=[0.0, 1e-7, 47.3, 90.0, 180.0])))
        if tier == 'thorough':
            out.append(('high', dict(nmax=133, source=s, thetas=[0.0, 1e-5, 47.3, 120.0])))
            out.append(('high', dict(nmax=185, source=s, thetas=[33.0, 90.0])))
        out.append(('sums', dict(source=s)))
    out += [('generic', dict()), ('radii', dict(thorough=tier == 'thorough'))]
    out.append(('gradient', dict()))
    out += [('several', {})]
    return out


def check(rec, nms, pts, source, kw, fid, rtol=2e-10):
    from chaosmagpy import model_utils as mu
    M = len(nms)
    R, T, P = (np.array(x) for x in zip(*pts))
    want = np.stack([ref.basis_field(nms, r, t, p, source) for r, t, p in pts], axis=-1)  # 3, M, npts
    c = np.eye(M)[:, None, :]
    got = mu.synth_values(c, R, T, P, source=source, **kw)
    nontriv = int((np.abs(want).max(axis=0) > 0).sum())
    rec.bulk(M*len(pts), nontriv, sample=(fid, kw, nms[-1], pts[-1]))
    ok = True
    for i, name in enumerate(('B_radius', 'B_theta', 'B_phi')):
        g = np.asarray(got[i])
        if g.shape != (M, len(pts)):
            rec.fail(fid, f'{name} shape {g.shape}')
            return False
        # scale: largest field of that degree and radius
        scale = np.abs(want).max(axis=(0, 2), keepdims=False)[:, None]
        x = 6371.2/R
        rs = np.array([[x_**(n+2) if source == 'internal' else x_**(1-n) for x_ in x] for n, _, _ in nms])
        tol = rtol*np.array([n+1 for n, _, _ in nms])[:, None]*rs*np.array([max(n, 2) for n, _, _ in nms])[:, None]
        bad = ~(np.abs(g - want[i]) <= tol)
        if bad.any():
            k = np.unravel_index(np.argmax(bad), bad.shape)
            rec.fail(f'{fid}:{name}', f'{name} for coefficient (n,m,cos/sin)={nms[k[0]]}, source={source}, {kw}, '
                     f'(r,theta,phi)={pts[k[1]]}: got {g[k]!r}, expected {want[i][k]!r}')
            ok = False
    return ok


def windows(rec, nmax, source, full):
    for nmin in range(1, nmax+1):
        for mmax in [None] + list(range(0, nmax+1)):
            nms = ref.nm_list(nmin, nmax, mmax)
            # every way the window can be stated: explicit or inferred from the coefficients
            styles = []
            for gn in (True, False):
                kw = {}
                if gn:
                    kw['nmax'] = nmax
                if nmin > 1 or gn:
                    kw['nmin'] = nmin
                if mmax is not None:
                    kw['mmax'] = mmax
                styles.append(kw)
            for kw in styles:
                for which in ('in', 'poles', 'mix'):
                    if which == 'in' and not full and kw.get('nmax') is None:
                        pts = points('in')[::5]
                    else:
                        pts = points(which)
                    check(rec, nms, pts, source, kw, f'window:{source}:{nmin}-{nmax}:{mmax}:{which}')
    # coefficients beyond the requested degree are ignored
    from chaosmagpy import model_utils as mu
    big = ref.nm_list(1, nmax+2)
    c = ref.lcg(len(big), 3)
    for n in range(1, nmax+1):
        a = np.stack(mu.synth_values(c, 6500., 40., 20., nmax=n, source=source))
        w = ref.field(c[:n*(n+2)], big[:n*(n+2)], 6500., 40., 20., source)
        rec.case(('trunc', source, nmax, n))
        rec.close(f'trunc:{source}:{nmax}:{n}', a, w, 1e-10, 1e-10, 'truncated expansion')
    if source == 'internal':  # default source
        a = np.stack(mu.synth_values(c, 6500., 40., 20.))
        rec.close('default-source', a, ref.field(c, big, 6500., 40., 20.), 1e-10, 1e-10, 'default source')


def degrees(rec, lo, hi, source):
    for n in range(lo, hi+1):
        nms = ref.nm_list(1, n)
        check(rec, nms, points('mix')[::4], source, {}, f'degree:{source}:{n}')
        check(rec, nms, points('in')[::11], source, {}, f'degree-in:{source}:{n}')
        for mmax in (0, 1, n//2, n-1):
            check(rec, ref.nm_list(n//2, n, mmax), points('in')[::17], source, dict(nmin=n//2, nmax=n, mmax=mmax),
                  f'degree-window:{source}:{n}:{mmax}')


def high(rec, nmax, source, thetas):
    nms = ref.nm_list(1, nmax)
    a = 6371.2
    pts = [(a, t, p) for t, p in zip(thetas, itertools.cycle([12.5, -140.0, 77.0]))]
    check(rec, nms, pts, source, {}, f'high:{source}:{nmax}', rtol=1e-10)


def generic(rec):
    """Generic (non-unit) coefficient vectors: linearity."""
    from chaosmagpy import model_utils as mu
    for source in ('internal', 'external'):
        for nmax in range(1, 9):
            nms = ref.nm_list(1, nmax)
            for seed in range(3):
                c = ref.lcg(len(nms), seed, -1e4, 1e4)
                for r, t, p in points('mix')[::7]:
                    got = np.stack(mu.synth_values(c, r, t, p, source=source))
                    want = ref.field(c, nms, r, t, p, source)
                    rec.case((source, nmax, seed, r, t, p))
                    s = np.abs(ref.basis_field(nms, r, t, p, source)).sum()*1e4
                    rec.close(f'generic:{source}:{nmax}:{seed}', got, want, 1e-10, 1e-11*s, 'generic coefficients', point=(r, t, p))


def sums(rec, source):
    """All degrees of large expansions together, one order at a time and with alternating signs."""
    from chaosmagpy import model_utils as mu
    pts = [(6371.2, 33.3, 12.5), (6800., 90., -140.), (6371.2, 1e-5, 77.), (6500., 171.25, 301.), (6371.2, 0., 40.)]
    N = 185
    nms = ref.nm_list(1, N)
    n, m = np.array([x[0] for x in nms]), np.array([x[1] for x in nms])
    rows = [np.where(n <= k, ref.lcg(len(nms), k, -9, 9), 0.) for k in (85, 100, 128, 133, 185)] + [np.where(n == k, 1., 0.) for k in range(61, N+1)]
    rows += [np.where(m == k, 1., 0.) for k in range(0, N+1, 5)]
    c = np.array(rows)
    for r, t, p in pts:
        b = ref.basis_field(nms, r, t, p, source)
        want, size = b @ c.T, np.abs(b) @ np.abs(c).T
        got = np.stack(mu.synth_values(c, r, t, p, source=source))
        rec.bulk(want.size, want.size)
        bad = ~(np.abs(got - want) <= 1e-10*size + 1e-12*size.max(axis=0) + 1e-200)
        rec.ok(not bad.any(), f'sums:{source}:{r}:{t}', f'{source} field of large expansions at {(r, t, p)}: rows {np.flatnonzero(bad.any(axis=0))[:9]} wrong')
        for k in (86, 120, 150):
            got = np.stack(mu.synth_values(c[:, :k*(k+2)], r, t, p, source=source)), np.stack(mu.synth_values(c, r, t, p, source=source, nmax=k))
            want = b[:, n <= k] @ c[:, n <= k].T
            rec.bulk(2*want.size, 2*want.size)
            rec.ok(np.all(np.abs(got - want) <= 1e-10*size + 1e-12*size.max(axis=0) + 1e-200), f'sums:{source}:{r}:{t}:{k}', f'{source} field up to degree {k} at {(r, t, p)} wrong')


def radii(rec, thorough):
    """Extreme radii: the external field down to the origin (only degree one is left there), both fields far away and deep inside."""
    from chaosmagpy import model_utils as mu
    near = [0., 5e-324, 1e-200, 1e-30, 1e-9, 1e-3, 1., 50., 1221.5]
    far = [42164., 384400., 1e6, 1e9, 1.5e11]
    th, ph = [0., 1e-7, 33.3, 90., 127.7, 180.], [-33., 0., 271.]
    for nmax in range(1, 8 if thorough else 6):
        for nmin in range(1, nmax+1):
            nms = ref.nm_list(nmin, nmax)
            c = np.eye(len(nms))
            for source, rr in (('external', near), ('internal', far), ('internal', near[5:]), ('external', far[:3])):
                for r, t, p in itertools.product(rr, th, ph):
                    got = np.stack(mu.synth_values(c, r, t, p, nmin=nmin, nmax=nmax, source=source))
                    want = np.array([[(r/6371.2)**(n-1) if source == 'external' else (6371.2/r)**(n+2) for n, _, _ in nms]])
                    want = want*ref.basis_field(nms, 6371.2, t, p, source)
                    rec.bulk(len(nms), len(nms), sample=(source, nmin, nmax, r, t, p))
                    rec.close(f'radii:{source}:{nmin}-{nmax}:{r}', got, want, 1e-9, 1e-9*max(want.__abs__().max(), 1e-300), 'extreme radius', point=(r, t, p))
                if r == rr[-1]:   # all radii in one array
                    got = np.stack(mu.synth_values(c[:, None, :], np.array(rr), 40., 50., nmin=nmin, nmax=nmax, source=source))
                    for i, r in enumerate(rr):
                        one = np.stack(mu.synth_values(c, r, 40., 50., nmin=nmin, nmax=nmax, source=source))
                        rec.close(f'radiiarr:{source}:{nmin}-{nmax}:{r}', got[:, :, i], one, 1e-11, 1e-300, 'array of radii')


def gradient(rec):
    """The components are minus the numerical gradient of the potential (binds the reference to its definition)."""
    from chaosmagpy import model_utils as mu
    for source in ('internal', 'external'):
        for nmax in (1, 2, 3, 5):
            nms = ref.nm_list(1, nmax)
            c = ref.lcg(len(nms), nmax, -100, 100)
            for r, t, p in [(6371.2, 30., 40.), (5000., 91., -120.), (7000., 150., 250.)]:
                h, d = 0.5, 1e-3
                V = lambda r_, t_, p_: ref.potential(c, nms, r_, t_, p_, source)  # noqa
                def diff(f, e):
                    return (8*(f(e) - f(-e)) - (f(2*e) - f(-2*e)))/(12*e)
                g = np.array([-diff(lambda e: V(r+e, t, p), h),
                              -diff(lambda e: V(r, t+e, p), d)*180/np.pi/r,
                              -diff(lambda e: V(r, t, p+e), d)*180/np.pi/r/np.sin(np.radians(t))])
                got = np.stack(mu.synth_values(c, r, t, p, source=source))
                rec.case(('grad', source, nmax, r, t, p))
                rec.close(f'gradient:{source}:{nmax}', got, g, 1e-6, 1e-4, 'numerical gradient', point=(r, t, p))


def several(rec):
    """The same data as scalars, in deep arrays, repeated, in other orders, as integers and in long arrays."""
    from chaosmagpy import model_utils as mu
    from mc.large import tiled
    r = np.array([6371.2, 6371., 3485., 6800.5, 7000., 12000., 6371.2, 6500., 1e5, 1e6, 6371.2])
    th = np.array([0., 180., 90., 33., 1e-6, 90., 133.5, 179.999, 45., 60., 12.])
    ph = np.array([0., 360., -90., 33.25, 180., -180., 720., 359., 1e5, -1e6, 0.5])
    c = ref.lcg(11*15, 1, -900, 900).reshape(11, 15)
    for source in ('internal', 'external'):
        tiled(rec, f'one:{source}', lambda *a: tuple(mu.synth_values(c[0], *a, source=source)), (r, th, ph), sizes=(1001, 20000))
        tiled(rec, f'each:{source}', lambda x, *a: tuple(mu.synth_values(x, *a, source=source)), (c, r, th, ph), sizes=(1001, 20000))
        tiled(rec, f'coeffs:{source}', lambda x: tuple(mu.synth_values(x, 6400., 33., 77., source=source)), (c,), sizes=(1001,))
        tiled(rec, f'radius:{source}', lambda x: tuple(mu.synth_values(c[1], x, 33, 77, source=source)), (r,), sizes=(1001,))
        whole = np.round(c[0])
        for k in (whole.astype(int), np.round(c).astype(int)):
            for a in ((6400., 33., 77.), (r, th, ph)):
                got, want = mu.synth_values(k, *a, source=source), mu.synth_values(k.astype(float), *a, source=source)
                for g, w in zip(got, want):
                    rec.close(f'int:{source}:{k.shape}:{np.shape(a)}', g, w, 1e-13, 1e-9, 'integer coefficients')
                rec.case(('int', source, k.shape, np.shape(a)))
        # radii and longitudes far away
        for i in range(11):
            got = mu.synth_values(c[2], r[i], th[i], ph[i], source=source)
            want = ref.field(c[2], ref.nm_list(1, 3), r[i], th[i], ph[i], source)
            rec.close(f'far:{source}:{i}', np.array(got), np.array(want), 1e-8, 1e-8*np.max(np.abs(want)), 'far away')
            rec.case(('far', source, i))
        for k in (1e-12, 1e-6, 2**20, 1e9, -1e12):
            for x in (c[0], c):
                a, b = mu.synth_values(k*x, r, th, ph, source=source), mu.synth_values(x, r, th, ph, source=source)
                rec.close(f'scale:{source}:{k}:{x.ndim}', np.array(a)/k, np.array(b), 1e-12, 1e-12*np.max(np.abs(b)), 'scaled coefficients')
                rec.case(('scale', source, k, x.ndim))
