"""C05: power spectrum, degree correlation and sensitivity.

The spectrum is quadratic in the coefficients, so the unit vectors and all pairwise sums
determine it completely; the oracle is the quadrature of the squared reference field."""
import itertools
import numpy as np
from mc import ref

PROPERTY, LEVEL = 'C05', 'exploration'
RULE = ('a case is (source, radius, degree truncation, axis, coefficient vector); unit vectors and all pairwise sums are '
        'enumerated; non-trivial when the expected spectrum is non-zero')
ASSUMPTIONS = ['the spectrum is a quadratic form per degree (three-term combinations are checked)']


def tasks(tier):
    N = 4 if tier != 'thorough' else 6
    out = [('quadratic', dict(nmax=n, source=s, radius=r)) for n in range(1, N+1) for s in ('internal', 'external', 'toroidal')
           for r in (None, 6371.2, 3485., 8000.)]
    out += [('axes', dict(source=s)) for s in ('internal', 'external', 'toroidal', None)]
    out += [('high', dict(nmax=n)) for n in (20, 60, 133)]
    out += [('correlation', dict(nmax=n)) for n in range(1, N+2)]
    out += [('model', {}), ('surface', {}), ('many', {})]
    return out


def gram(nmax, source, radius):
    """mean over the sphere of B_i . B_j for the basis functions"""
    nms = ref.nm_list(1, nmax)
    if source == 'toroidal':
        G = np.diag([n*(n+1)/(2*n+1) for n, _, _ in nms])
        return nms, G
    x, w = np.polynomial.legendre.leggauss(nmax+2)
    nphi = 2*nmax+3
    G = np.zeros((len(nms),)*2)
    for xi, wi in zip(x, w):
        for k in range(nphi):
            B = ref.basis_field(nms, radius or 6371.2, float(np.degrees(np.arccos(xi))), 360.*k/nphi, source)
            G += wi/2/nphi*B.T @ B
    return nms, G


def expected(c, nms, G):
    nmax = nms[-1][0]
    out = np.zeros(c.shape[:-1] + (nmax,))
    for n in range(1, nmax+1):
        sl = slice(n*n-1, n*n+2*n)
        out[..., n-1] = np.einsum('...i,ij,...j->...', c[..., sl], G[sl, sl], c[..., sl])
    return out


def quadratic(rec, nmax, source, radius):
    from chaosmagpy import model_utils as mu
    nms, G = gram(nmax, source, radius)
    for n in range(1, nmax+1):  # degrees do not mix (harness sanity)
        sl = slice(n*n-1, n*n+2*n)
        H = G.copy()
        H[sl, sl] = 0
        rec.ok(np.abs(H[sl]).max() < 1e-10*np.abs(G).max(), 'harness', 'reference degrees mix')
    M = len(nms)
    V = [np.eye(M)[i] for i in range(M)] + [np.eye(M)[i] + s*np.eye(M)[j] for i in range(M) for j in range(i) for s in (1, -1)]
    V += [ref.lcg(M, k, -100, 100) for k in range(4)] + [np.zeros(M)]
    V = np.array(V)
    for cut in [None] + list(range(1, nmax+2)):
        kw = {} if cut is None else dict(nmax=cut)
        W = mu.power_spectrum(V, radius, source=source, **kw)
        want = expected(V, nms, G)[:, :min(cut or nmax, nmax)]
        rec.bulk(len(V), np.count_nonzero(want.any(axis=1)), sample=(nmax, source, radius, cut))
        rec.close(f'quadratic:{nmax}:{source}:{radius}:{cut}', W, want, 1e-10, 1e-12, 'power spectrum')
        one = mu.power_spectrum(V[-2], radius, source=source, **kw)
        rec.close(f'vector:{nmax}:{source}:{radius}:{cut}', one, want[-2], 1e-10, 1e-12, 'power spectrum of one vector')
    if source == 'internal':
        rec.close(f'default:{nmax}:{radius}', mu.power_spectrum(V, radius), expected(V, nms, G), 1e-10, 1e-12, 'default source')


def axes(rec, source):
    from chaosmagpy import model_utils as mu
    for nmax in (1, 2, 3):
        M = nmax*(nmax+2)
        base = ref.lcg(2*4*M, nmax, -9, 9).reshape(2, 4, M)
        for radius in (None, 4000.):
            for cut in (None, 1, nmax, nmax+3):
                want = mu.power_spectrum(base.reshape(-1, M), radius, source=source, nmax=cut)
                single = np.array([mu.power_spectrum(b, radius, source=source, nmax=cut) for b in base.reshape(-1, M)])
                rec.close(f'rows:{source}:{nmax}:{cut}', want, single, 1e-12, 1e-12, 'rows')
                want = want.reshape(2, 4, -1)
                for perm in itertools.permutations(range(3)):
                    c = np.transpose(base, perm)
                    ax = perm.index(2)
                    for a in {ax, ax-3}:
                        keep = c.copy()
                        W = mu.power_spectrum(c, radius, axis=a, source=source, nmax=cut)
                        rec.case((source, nmax, radius, cut, perm, a))
                        rec.close(f'axis:{source}:{nmax}:{cut}:{perm}:{a}', W, np.transpose(want, perm), 1e-12, 1e-12, 'axis')
                        rec.ok(np.array_equal(keep, c), f'modified:{source}', 'power_spectrum modified its input')
    # integer coefficients, and unknown source
    c = np.arange(1, 9)
    rec.close(f'int:{source}', mu.power_spectrum(c, source=source), mu.power_spectrum(c.astype(float), source=source), 1e-13, 0, 'integer input')
    rec.raises('source', ValueError, mu.power_spectrum, c, source='foo', what='unknown source')


def high(rec, nmax):
    from chaosmagpy import model_utils as mu
    nms = ref.nm_list(1, nmax)
    c = ref.lcg(len(nms), 7, -5, 5)
    for source, f in (('internal', lambda n, q: (n+1)*q**(2*n+4)), ('external', lambda n, q: n*q**(-(2*n-2))),
                      ('toroidal', lambda n, q: n*(n+1)/(2*n+1))):
        for radius in (6371.2, 3485., 6800.):
            want = np.array([f(n, 6371.2/radius)*sum(x*x for x, (k, _, _) in zip(c[n*n-1:n*n+2*n], nms[n*n-1:n*n+2*n])) for n in range(1, nmax+1)])
            rec.bulk(nmax, nmax, sample=(nmax, source, radius))
            rec.close(f'high:{nmax}:{source}:{radius}', mu.power_spectrum(c, radius, source=source), want, 1e-10, 0, 'high degree')


def correlation(rec, nmax):
    from chaosmagpy import model_utils as mu
    M = nmax*(nmax+2)
    for k in range(6):
        for l in range(6):
            a, b = ref.lcg(M, k, -3, 5), ref.lcg(M, 10+l, -7, 2)
            if k == l:
                b = (k-2.5)*a
            a0, b0 = a.copy(), b.copy()
            want = np.array([np.dot(a[n*n-1:n*n+2*n], b[n*n-1:n*n+2*n])/np.sqrt(np.dot(a[n*n-1:n*n+2*n], a[n*n-1:n*n+2*n])
                             * np.dot(b[n*n-1:n*n+2*n], b[n*n-1:n*n+2*n])) for n in range(1, nmax+1)])
            rec.case(('corr', nmax, k, l))
            rec.close(f'corr:{nmax}:{k}:{l}', mu.degree_correlation(a, b), want, 1e-12, 1e-13, 'degree correlation')
            want = np.concatenate([(a-b)[n*n-1:n*n+2*n]/np.sqrt(np.mean(b[n*n-1:n*n+2*n]**2)) for n in range(1, nmax+1)])
            rec.close(f'sens:{nmax}:{k}:{l}', mu.sensitivity(a, b), want, 1e-12, 1e-13, 'sensitivity')
            rec.ok(np.array_equal(a, a0) and np.array_equal(b, b0), 'modified', 'arguments were modified')
    i = np.arange(1, M+1)
    j = (i*7) % 5 + 1
    rec.close(f'int:{nmax}', mu.degree_correlation(i, j), mu.degree_correlation(i.astype(float), j.astype(float)), 1e-12, 0, 'integers')
    rec.close(f'intsens:{nmax}', mu.sensitivity(i, j), mu.sensitivity(i.astype(float), j.astype(float)), 1e-12, 1e-12, 'integers')
    a = np.arange(1., M+1)
    for f in (mu.degree_correlation, mu.sensitivity):
        for bad in ((a.reshape(1, -1), a), (a, a.reshape(1, -1)), (a, np.append(a, 1.)), (np.append(a, 1.), a)):
            rec.case((f.__name__, nmax, bad[0].shape, bad[1].shape))
            rec.raises(f'bad:{f.__name__}', ValueError, f, *bad, what='incompatible arrays')


def model(rec):
    from chaosmagpy.chaos import BaseModel
    for source in ('internal', 'external'):
        for nmax in (1, 2, 3):
            M = nmax*(nmax+2)
            pp = ref.lcg(2*2*M, 4).reshape(2, 2, M)
            m = BaseModel('m', np.array([0., 300., 700.]), 2, pp, source=source)
            for radius in (None, 6371.2, 5000.):
                nms, G = gram(nmax, source, radius)
                for time in (100., np.array([0., 350., 700.]), np.array([[10., 20.], [300., 400.]])):
                    t = np.atleast_1d(time)
                    for d in (0, 1):
                        for cut in (None, 1, nmax):
                            c = np.array([ref.pp_eval(pp, m.breaks, x, d)*365.25**d for x in t.ravel()]).reshape(t.shape + (M,))
                            w = expected(c, nms, G)[..., :cut or nmax]
                            w = w.reshape(np.shape(time) + w.shape[-1:])
                            rec.case((source, nmax, radius, str(time), d, cut))
                            kw = {} if cut is None else dict(nmax=cut)
                            rec.close(f'model:{source}:{nmax}:{radius}:{d}:{cut}', m.power_spectrum(time, radius, deriv=d, **kw), w, 1e-9, 1e-12,
                                      'model spectrum')


def surface(rec):
    """The configured reference radius is the radius of the coefficients and the default radius."""
    from chaosmagpy import model_utils as mu, basicConfig as cfg
    for surf, source, n in itertools.product((3485., 7000.), ('internal', 'external', 'toroidal'), (1, 3)):
        c = ref.lcg(2*n*(n+2), n, -90, 90).reshape(2, -1)
        with cfg.context('params.r_surf', surf):
            for radius in (None, surf, 3000., 6371.2, 8000.):
                nms, G = gram(n, source, None if radius is None else radius*6371.2/surf)
                W = mu.power_spectrum(c, source=source) if radius is None else mu.power_spectrum(c, radius, source=source)
                rec.close(f'surf:{surf}:{source}:{n}:{radius}', W, expected(c, nms, G), 1e-10, 1e-12, 'spectrum for another reference radius')
                rec.case((surf, source, n, radius))


def many(rec):
    """Many coefficient vectors at once."""
    from chaosmagpy import model_utils as mu
    from mc.large import tiled
    c = ref.lcg(11*15, 3, -90, 90).reshape(11, 15)
    for source, radius in itertools.product(('internal', 'external', 'toroidal'), (None, 3485.)):
        tiled(rec, f'many:{source}:{radius}', lambda x: mu.power_spectrum(x, radius, source=source), (c,))
        tiled(rec, f'manyT:{source}:{radius}', lambda x: mu.power_spectrum(x.T, radius, source=source, axis=0), (c,), sizes=(1001, 4097), axis=-1)
    for k in (1e-9, 1e-4, 2**17, 1e6, -1e9):
        for source in ('internal', 'external', 'toroidal'):
            rec.close(f'scale:{source}:{k}', mu.power_spectrum(k*c, source=source)/k**2, mu.power_spectrum(c, source=source), 1e-12, 0, 'scaled coefficients')
        for x, y in itertools.product(range(11), repeat=2):
            rec.close(f'scalecorr:{k}:{x}:{y}', mu.degree_correlation(k*c[x], c[y]), np.sign(k)*mu.degree_correlation(c[x], c[y]), 0, 1e-12, 'scaled coefficients')
            rec.close(f'scalesens:{k}:{x}:{y}', mu.sensitivity(k*c[x], k*c[y]), np.sign(k)*mu.sensitivity(c[x], c[y]), 1e-10, 1e-12, 'both scaled')
        rec.case(('scale', k))
    z = np.zeros(15)
    for same in (np.ones(15), -3*np.ones(15), np.full(15, 1e6), np.full(15, 1e-6)):
        for x in (c[0], c[1], same):
            want = [np.sum(same[n*n-1:n*n+2*n]*x[n*n-1:n*n+2*n])/np.sqrt(np.sum(same[n*n-1:n*n+2*n]**2)*np.sum(x[n*n-1:n*n+2*n]**2)) for n in (1, 2, 3)]
            rec.close(f'samecorr:{same[0]}', mu.degree_correlation(same, x), np.array(want), 1e-12, 1e-12, 'equal coefficients')
            rec.case(('same', same[0], x[0]))
    for v, source, radius in itertools.product((1., -3., 1e6, 1e-6), ('internal', 'external', 'toroidal'), (None, 3485.)):
        for n in (1, 2, 3):
            x = np.full(n*(n+2), v)
            want = expected(x, *gram(n, source, radius))
            rec.close(f'equal:{v}:{source}:{radius}:{n}', mu.power_spectrum(x, radius, source=source), want, 1e-9, 0, 'equal coefficients')
            rec.close(f'equalint:{v}:{source}:{radius}:{n}', mu.power_spectrum(np.full((2, x.size), 3), radius, source=source), 9/v**2*np.array([want, want]), 1e-9, 0, 'equal integer coefficients')
            rec.case(('equal', v, source, radius, n))
    for v, w in itertools.product((1., -3., 1e6, 1e-6), repeat=2):
        rec.close(f'equalsens:{v}:{w}', mu.sensitivity(np.full(15, v), np.full(15, w)), np.full(15, (v-w)/abs(w)), 1e-9, 1e-9, 'equal coefficients')
