"""C30: spherical harmonic analysis."""
import itertools
import numpy as np
from mc import ref

PROPERTY, LEVEL = 'C30', 'exploration'
RULE = ('every single harmonic of degree and order up to the bound (with the constant), for every requested degree and every content degree: '
        'the analysis of each must give the unit vector (or zero above the requested degree); dense coefficient vectors and '
        'linear combinations; the grid handed to the function is checked for shape, range and being two-dimensional.  By linearity of both '
        'sides the single harmonics decide every band-limited function of that degree.')
ASSUMPTIONS = []


def tasks(tier):
    top = 6 if tier != 'thorough' else 12
    return [('unit', dict(nmax=n, top=top)) for n in range(1, top+1)] + [('dense', dict(n=20 if tier != 'thorough' else 40)), ('linear', {}), ('fields', {}), *[('sparse', dict(n=k)) for k in (41, 60)]]


def harmonic(nms, c):
    """Function of colatitude and longitude grids (60-digit Legendre functions per distinct colatitude)."""
    top = max(n for n, _, _ in nms)

    def f(theta, phi):
        theta, phi = np.asarray(theta, float), np.asarray(phi, float)
        out = np.zeros(np.broadcast(theta, phi).shape)
        T, F = np.broadcast_arrays(theta, phi)
        for x in np.unique(T):
            P, _, _ = ref.legendre(top, float(x))
            i = T == x
            for g, (n, m, k) in zip(c, nms):
                if g:
                    out[i] += g*P[n, m]*(np.cos if k == 'c' else np.sin)(m*np.radians(F[i]))
        return out
    return f


def unit(rec, nmax, top):
    from chaosmagpy import coordinate_utils as cu
    for kmax in [None] + list(range(0, top+1)):
        content = nmax if kmax is None else max(nmax, kmax)
        nms = [(0, 0, 'c')] + ref.nm_list(1, content)
        want = np.vstack([np.zeros((1, nmax*(nmax+2))), np.eye(content*(content+2))[:, :nmax*(nmax+2)]])
        for j in range(len(nms)):
            c = np.zeros(len(nms))
            c[j] = 1.
            calls = []
            f0 = harmonic(nms, c)

            def f(theta, phi):
                calls.append((np.array(theta), np.array(phi)))
                return f0(theta, phi)
            got = cu.sh_analysis(f, nmax) if kmax is None else cu.sh_analysis(f, nmax, kmax=kmax)
            tag = f'{nmax}:{kmax}:{nms[j]}'
            rec.case(tag)
            rec.close(f'coeff:{tag}', got, want[j], 0, 1e-12, what=f'coefficients of the harmonic {nms[j]}')
            th, ph = calls[0]
            rec.ok(all(a.shape == b.shape and a.ndim == 2 for a, b in calls) and th.min() >= 0 and th.max() <= 180
                   and ph.min() >= -360 and ph.max() <= 720, f'grid:{tag}', 'function called with an unsuitable grid')


def dense(rec, n):
    from chaosmagpy import coordinate_utils as cu
    nms = [(0, 0, 'c')] + ref.nm_list(1, n)
    c = ref.lcg(len(nms), 5, -1000, 1000)
    for nmax in (n, 1, n//2):
        got = cu.sh_analysis(harmonic(nms, c), nmax, kmax=n)
        rec.close(f'dense:{nmax}', got, c[1:(nmax+1)**2], 0, 1e-8, what=f'dense coefficients to degree {nmax} of {n}')
        rec.case(('dense', nmax))


def linear(rec):
    from chaosmagpy import coordinate_utils as cu
    # arbitrary (not band-limited) functions: the analysis is linear and ignores constants

    def f(t, p):
        return np.exp(np.sin(np.radians(t)))*np.cos(np.radians(3*p+20)) + np.sign(p-100.)

    def g(t, p):
        return np.abs(t-77.)*np.sin(np.radians(p))**3
    for nmax, kmax in itertools.product((1, 3, 5), (None, 2, 7)):
        A, B = cu.sh_analysis(f, nmax, kmax), cu.sh_analysis(g, nmax, kmax)
        for a, b, k in ((2., -3., 0.), (0., 1., 5.), (-1e6, 1e-3, 0.), (0., 0., 7.)):
            C = cu.sh_analysis(lambda t, p: a*f(t, p) + b*g(t, p) + k, nmax, kmax)
            rec.close(f'lin:{nmax}:{kmax}:{a}:{b}:{k}', C, a*A + b*B, 1e-10, 1e-10*(1+abs(a)), what='linearity')
            rec.case((nmax, kmax, a, b, k))


def fields(rec):
    """Inverse of synthesis: the radial field of a model gives its coefficients back; integer output is accepted."""
    from chaosmagpy import coordinate_utils as cu, model_utils as mu
    a = 6371.2
    for n, r, source in itertools.product((1, 2, 5, 8), (6371.2, 7000., 3485.), ('internal', 'external')):
        c = ref.lcg(n*(n+2), n, -50, 50)
        got = cu.sh_analysis(lambda t, p: mu.synth_values(c, r, t, p, source=source)[0], n, kmax=n+1)
        deg = np.array([k for k, _, _ in ref.nm_list(1, n)])
        f = (deg+1)*(a/r)**(deg+2.) if source == 'internal' else -deg*(r/a)**(deg-1.)
        rec.close(f'field:{n}:{r}:{source}', got/f, c, 1e-9, 1e-9, what='coefficients of a synthesised field')
        rec.case((n, r, source))
    got = cu.sh_analysis(lambda t, p: (t < 90).astype(int)*2 - 1, 1, 60)
    rec.close('step', got, [1.5, 0, 0], 0, 2e-2, what='hemispheres as integers')
    got = cu.sh_analysis(lambda t, p: np.full(np.shape(t), 3), 4)
    rec.close('const', got, np.zeros(24), 0, 1e-12, what='integer constant')


def sparse(rec, n):
    """High degrees: a few harmonics among many."""
    from chaosmagpy import coordinate_utils as cu
    nms = [(0, 0, 'c')] + ref.nm_list(1, n)
    c = np.zeros(len(nms))
    for i, w in ((0, 3.), (1, -0.7), (7, 1e-3), (n*n//2, 11.), (n*n-1, -2.), (n*n, 5.), (len(nms)-1, 1.), (len(nms)-2, -4.)):
        c[i] = w
    f = harmonic(nms, c)
    for nmax in (n, n-1, 2):
        got = cu.sh_analysis(f, nmax, kmax=n)
        rec.close(f'sparse:{nmax}:{n}', got, c[1:(nmax+1)**2], 0, 1e-10, what=f'coefficients to degree {nmax} of {n}')
        rec.case(('sparse', n, nmax))
