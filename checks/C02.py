"""C02: design matrices are the linear operators of field synthesis."""
import itertools
import numpy as np
from mc import ref
from checks.C01 import points

PROPERTY, LEVEL = 'C02', 'exploration'
RULE = ('a case is (function, source, window or spline set-up, matrix column, datum); enumerated without repetition; '
        'non-trivial when the reference entry is non-zero')
ASSUMPTIONS = ['B-spline basis reference is the Cox-de Boor recursion']


def tasks(tier):
    N = 6 if tier != 'thorough' else 10
    out = [('windows', dict(nmax=n, source=s)) for n in range(1, N+1) for s in ('internal', 'external')]
    out += [('high', dict(nmax=n, source=s)) for n in ((13, 20) if tier != 'thorough' else (13, 20, 45)) for s in ('internal', 'external')]
    out += [('shapes', {}), ('surface', {}), ('many', {}), ('bounds', {}), ('remote', {})]
    out += [('wide', dict(n_tdep=n, order=o)) for n, o in ((16, 2), (20, 4), (17, 1))]
    for order in (1, 2, 3, 4, 5, 6):
        out.append(('splines', dict(order=order, deep=tier == 'thorough')))
    return out


def matrix(rec, nms, pts, source, args, kw, fid, shape=None):
    from chaosmagpy import model_utils as mu
    R, T, P = (np.array(x) for x in zip(*pts))
    if shape is not None:
        R, T, P = (x.reshape(shape) for x in (R, T, P))
    want = np.stack([ref.basis_field(nms, r, t, p, source) for r, t, p in pts], axis=1)  # 3, npts, M
    got = mu.design_gauss(R, T, P, *args, **kw)
    x = np.array([6371.2/r for r, _, _ in pts])
    tol = np.stack([(n+1)*max(n, 2)*(x**(n+2) if source == 'internal' else x**(1-n)) for n, _, _ in nms], axis=-1)*2e-10
    rec.bulk(len(pts)*len(nms), int((np.abs(want).max(axis=0) > 0).sum()), sample=(fid, pts[0]))
    for i, name in enumerate(('A_radius', 'A_theta', 'A_phi')):
        g = np.asarray(got[i])
        if shape is not None and g.shape[:-1] == tuple(shape):
            g = g.reshape((-1, g.shape[-1]))
        if g.shape != (len(pts), len(nms)):
            rec.fail(fid, f'{name} has shape {np.asarray(got[i]).shape} for {len(pts)} points and {len(nms)} coefficients; {kw}')
            continue
        bad = ~(np.abs(g - want[i]) <= tol)
        if bad.any():
            k = np.unravel_index(np.argmax(bad), bad.shape)
            rec.fail(f'{fid}:{name}', f'{name} {kw} coefficient {nms[k[1]]} at {pts[k[0]]}: {g[k]!r}, expected {want[i][k]!r}')


def windows(rec, nmax, source):
    from chaosmagpy import model_utils as mu
    for nmin in range(1, nmax+1):
        for mmax in [None] + list(range(nmax+1)):
            nms = ref.nm_list(nmin, nmax, mmax)
            kw = dict(source=source)
            if nmin > 1 or (mmax or 0) % 2:
                kw['nmin'] = nmin
            if mmax is not None:
                kw['mmax'] = mmax
            for which, step in (('in', 7), ('poles', 3), ('mix', 5)):
                pts = points(which)[::step]
                matrix(rec, nms, pts, source, (nmax,), kw, f'design:{source}:{nmin}-{nmax}:{mmax}:{which}')
            # directly against synthesis by the library itself
            c = ref.lcg(len(nms), nmin + 3*nmax, -50, 50)
            pts = points('mix')[::9]
            R, T, P = (np.array(x) for x in zip(*pts))
            A = mu.design_gauss(R, T, P, nmax, **kw)
            B = mu.synth_values(c, R, T, P, nmax=nmax, nmin=nmin, mmax=mmax, source=source)
            for i in range(3):
                rec.close(f'synthesis:{source}:{nmin}-{nmax}:{mmax}:{i}', A[i] @ c, B[i], 1e-10,
                          1e-8*max(1., np.abs(B[i]).max()), 'design @ coeffs vs synthesis')
    if source == 'internal':
        a = mu.design_gauss(np.array([7000.]), np.array([50.]), np.array([10.]), nmax)
        b = mu.design_gauss(np.array([7000.]), np.array([50.]), np.array([10.]), nmax, source='internal')
        for i in range(3):
            rec.close(f'default:{nmax}:{i}', a[i], b[i], 0, 1e-14, 'default source')


def high(rec, nmax, source):
    matrix(rec, ref.nm_list(1, nmax), points('mix')[::11], source, (nmax,), dict(source=source), f'high:{source}:{nmax}')
    matrix(rec, ref.nm_list(nmax-1, nmax, 3), points('in')[::13], source, (nmax,), dict(source=source, nmin=nmax-1, mmax=3),
           f'highw:{source}:{nmax}')


def shapes(rec):
    """All mutually broadcastable operand shapes of a small alphabet."""
    from chaosmagpy import model_utils as mu
    S = [(), (1,), (2,), (3, 1), (1, 2), (3, 2)]
    nms = ref.nm_list(1, 2)
    r0, t0, p0 = np.array([6371.2, 6500., 7000., 5000., 6400., 6450.]), np.array([0., 10., 90., 120., 180., 33.]), np.array([0., 20., -70., 300., 180., 5.])
    for sr, st, sp in itertools.product(S, S, S):
        r, t, p = (x[:int(np.prod(s, dtype=int))].reshape(s) for x, s in ((r0, sr), (t0, st), (p0, sp)))
        b = np.broadcast_arrays(r, t, p)
        A = mu.design_gauss(r, t, p, 2)
        rec.case((sr, st, sp))
        want = np.stack([ref.basis_field(nms, *q) for q in zip(*(x.ravel() for x in b))], axis=1).reshape((3,) + b[0].shape + (8,))
        for i in range(3):
            rec.close(f'shape:{sr}{st}{sp}:{i}', A[i], want[i], 1e-11, 1e-11, 'broadcast design matrix')
    for a in [dict(nmax=2, nmin=3), dict(nmax=0), dict(nmax=2, nmin=0), dict(nmax=2, mmax=3), dict(nmax=2, mmax=-1), dict(nmax=2, source='foo')]:
        rec.case(('bad', str(a)))
        rec.raises(f'invalid:{a}', (ValueError, AssertionError), mu.design_gauss, r0, t0[:6], p0, what=f'invalid arguments {a}', **a)


def surface(rec):
    """Another reference radius: synthesis and design matrices follow it together."""
    from chaosmagpy import model_utils as mu, basicConfig as cfg
    R, T, P = (np.array(x) for x in zip(*points('in')[::9]))
    t = np.linspace(0., 900., R.size)
    knots = np.array([0., 0., 400., 900., 900.])
    for surf, source in itertools.product((3485., 6371.2, 7000.), ('internal', 'external')):
        with cfg.context('params.r_surf', surf):
            nms = ref.nm_list(1, 3)
            want = np.stack([ref.basis_field(nms, r*6371.2/surf, a, b, source) for r, a, b in zip(R, T, P)], axis=1)
            A = mu.design_gauss(R, T, P, 3, source=source)
            c = ref.lcg(15, 4, -50, 50)
            B = mu.synth_values(c, R, T, P, source=source)
            G = mu.design_matrix(knots, 2, 2, t, R, T, P, n_static=3, source=source)
            basis = np.array([[ref.bspline_basis(knots, 2, j, x) for j in range(3)] for x in t])
            for i in range(3):
                s = max(1., np.abs(want[i]).max())
                rec.close(f'surf:{surf}:{source}:{i}', A[i], want[i], 1e-9, 1e-10*s, 'design matrix for another reference radius')
                rec.close(f'surfs:{surf}:{source}:{i}', A[i] @ c, B[i], 1e-9, 1e-8*s, 'design @ coeffs vs synthesis')
                w = np.concatenate([(want[i][:, :8, None]*basis[:, None]).reshape(R.size, 24), want[i][:, 8:]], axis=-1)
                rec.close(f'surfm:{surf}:{source}:{i}', G[i], w, 1e-9, 1e-10*s, 'time-dependent design matrix for another reference radius')
            rec.case((surf, source))


def wide(rec, n_tdep, order):
    """High time-dependent degrees: every block of columns in its place."""
    from chaosmagpy import model_utils as mu
    breaks = np.array([0., 300., 900.])
    knots = np.concatenate([[0.]*(order-1), breaks, [900.]*(order-1)])
    nb = knots.size - order
    t = np.array([10., 299., 300., 550., 899.])
    th, ph, r = np.array([5., 60., 90., 133., 171.]), np.array([-170., -20., 33., 100., 359.]), np.array([6371.2, 6500., 6800., 7000., 6400.])
    B = np.array([[ref.bspline_basis(knots, order, j, x) for j in range(nb)] for x in t])
    kd = n_tdep*(n_tdep+2)
    for n_static in (None, n_tdep+1):
        nms = ref.nm_list(1, n_static or n_tdep)
        Y = np.stack([ref.basis_field(nms, *p) for p in zip(r, th, ph)], axis=1)
        W = np.concatenate([(Y[:, :, :kd, None]*B[None, :, None, :]).reshape(3, t.size, kd*nb), Y[:, :, kd:]], axis=-1)
        G = mu.design_matrix(knots, order, n_tdep, t, r, th, ph, n_static=n_static)
        rec.bulk(W[0].size, int((np.abs(W).max(axis=0) > 0).sum()), sample=(n_tdep, order, n_static))
        for i in range(3):
            rec.close(f'wide:{n_tdep}:{order}:{n_static}:{i}', G[i], W[i], 1e-8, 1e-7, 'time-dependent design matrix of high degree')


def splines(rec, order, deep):
    """design_matrix against basis functions x B-spline basis."""
    from chaosmagpy import model_utils as mu
    for breaks in ([0., 400.], [-300., 0., 500.], [0., 100., 350., 1000.]) + (([0., 1., 2., 3., 5.],) if deep else ()):
        breaks = np.array(breaks)
        knots = np.concatenate([[breaks[0]]*(order-1), breaks, [breaks[-1]]*(order-1)])
        nb = knots.size - order
        times = sorted(set(list(breaks) + [breaks[0] + f*(b - a) + (a - breaks[0]) for a, b in zip(breaks[:-1], breaks[1:]) for f in (0.25, 0.8)]))
        nt = len(times)
        time = np.array(times*2)
        N = time.size
        theta = 5. + 170.*np.arange(N)/N
        phi = -170. + 47.*np.arange(N)
        radius = 6371.2 + 100.*(np.arange(N) % 3)
        B = np.array([[ref.bspline_basis(knots, order, j, t) for j in range(nb)] for t in time])
        rec.ok(abs(B.sum(axis=1) - 1).max() < 1e-9, 'harness', 'reference basis does not sum to one')
        for n_tdep in (1, 2, 3):
            for n_static in (None, n_tdep, n_tdep+1, n_tdep+3):
                for source in (None, 'internal', 'external'):
                    nms = ref.nm_list(1, n_static or n_tdep)
                    Y = np.stack([ref.basis_field(nms, r, t, p, source or 'internal') for r, t, p in zip(radius, theta, phi)], axis=1)
                    kd = n_tdep*(n_tdep+2)
                    W = np.concatenate([(Y[:, :, :kd, None]*B[None, :, None, :]).reshape(3, N, kd*nb), Y[:, :, kd:]], axis=-1)
                    G = mu.design_matrix(knots, order, n_tdep, time, radius, theta, phi, n_static=n_static, source=source)
                    rec.bulk(W.shape[1]*W.shape[2], int((np.abs(W).max(axis=0) > 0).sum()), sample=(order, list(breaks), n_tdep, n_static, source))
                    for i in range(3):
                        rec.close(f'matrix:{order}:{len(breaks)}:{n_tdep}:{n_static}:{source}:{i}', G[i], W[i], 1e-9, 1e-9,
                                  'time-dependent design matrix')
                    # B-spline model evaluated by the library
                    if source is None and n_static is None:
                        c = ref.lcg(nb*kd, order + n_tdep, -10, 10).reshape(nb, kd)
                        pp, br = mu.pp_from_bspline(c, knots, order)
                        F = mu.synth_from_pp(br, order, pp, time, radius, theta, phi)
                        for i in range(3):
                            rec.close(f'model:{order}:{len(breaks)}:{n_tdep}:{i}', G[i] @ c.T.ravel(), F[i], 1e-9, 1e-8, 'design @ coefficients vs model')
            rec.raises(f'static<tdep:{order}:{n_tdep}', ValueError, mu.design_matrix, knots, order, n_tdep + 1, time, radius, theta, phi,
                       n_static=n_tdep, what='static degree below time-dependent degree')


def many(rec):
    """Many data at once."""
    from chaosmagpy import model_utils as mu
    from mc.large import tiled, forms
    R, T, P = (np.array(x) for x in zip(*points('in')[::17]))
    t = np.linspace(0., 900., R.size)
    knots = np.array([0., 0., 0., 400., 900., 900., 900.])
    for source in ('internal', 'external'):
        tiled(rec, f'gauss:{source}', lambda *a: tuple(mu.design_gauss(*a, 4, nmin=2, source=source)), (R, T, P))
        forms(rec, f'matrix:{source}', lambda *a: tuple(mu.design_matrix(knots, 3, 2, *a, n_static=3, source=source)), (t, R, T, P), flat=True)
        tiled(rec, f'matrix:{source}', lambda s, *a: tuple(mu.design_matrix(knots, 3, 2, s.ravel(), *(x.ravel() for x in a), n_static=3, source=source)),
              (t, R, T, P), sizes=(1001, 4097, 16385), every=False)


def bounds(rec):
    """A colatitude outside [0, 180] anywhere is refused; one at the poles of the matrices for a time-dependent model too or evaluated right."""
    from chaosmagpy import model_utils as mu
    knots = np.array([0., 0., 0., 400., 900., 900., 900.])
    base = np.array([10., 45., 90., 135., 170., 33.])
    for bad, i, source in itertools.product((-1e-9, -1., -90., 180.0000001, 181., 270., 1e6, -np.inf, np.inf), range(6), ('internal', 'external')):
        th = base.copy()
        th[i] = bad
        rec.raises(f'bound:{bad}:{i}:{source}', ValueError, mu.design_gauss, 6400., th, 20., 2, source=source, what=f'colatitude {bad}')
        rec.raises(f'bound2:{bad}:{i}:{source}', ValueError, mu.design_gauss, 6400., th.reshape(2, 3), 20., 2, source=source, what=f'colatitude {bad}')
        rec.raises(f'boundm:{bad}:{i}:{source}', (ValueError, AssertionError), mu.design_matrix, knots, 3, 2, np.linspace(0., 900., 6), np.full(6, 6400.), th, np.full(6, 20.), source=source, what=f'colatitude {bad}')
        rec.case((bad, i, source))
    for bad in (-1e-9, 181.):
        rec.raises(f'scalar:{bad}', ValueError, mu.design_gauss, 6400., bad, 20., 2, what=f'colatitude {bad}')
def remote(rec):
    """Very large and very small distances, longitudes after many turns."""
    from chaosmagpy import model_utils as mu
    th, ph = np.array([0., 12., 90., 133.5, 180.]), np.array([0., 33., -120., 200., 10.])
    for r, k, source in itertools.product((3000., 6371.2, 1.5e5, 1e6, 1e-2*6371.2), (0, 360*300, -360*3000), ('internal', 'external')):
        A = mu.design_gauss(r, th, ph + k, 3, source=source)
        for i in range(5):
            want = ref.basis_field(ref.nm_list(1, 3), r, th[i], ph[i], source)
            for a, w in zip(A, want):
                rec.close(f'remote:{r}:{k}:{source}:{i}', a[i], w, 1e-7, 1e-8*np.max(np.abs(want)), 'row of the matrix')
            rec.case((r, k, source, i))
