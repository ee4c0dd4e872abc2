"""C04: Schmidt semi-normalised associated Legendre functions and derivatives."""
import math
import numpy as np
from mc import ref

PROPERTY, LEVEL = 'C04', 'exploration'
RULE = 'a case is one (n, m, colatitude, function or derivative); enumerated once; non-trivial when the reference is non-zero'
ASSUMPTIONS = ['60-digit decimal recursion is exact to double precision']
TH = [0., 180., 1e-12, 1e-8, 1e-5, 0.01, 1., 10., 33.3, 45., 60., 89.9999999, 90., 90.0000001, 101., 133., 170., 179.99, 180-1e-6, 180-1e-11]


def tasks(tier):
    out = [('table', dict(nmax=n)) for n in range(1, 31)]
    out += [('table', dict(nmax=n)) for n in ((45, 85, 185) if tier != 'thorough' else (45, 60, 85, 133, 185))]
    out += [('shapes', {}), ('several', {})]
    out.append(('identities', dict(nmax=30)))
    return out


def compare(rec, nmax, Pnm, theta, fid):
    want = [ref.legendre(nmax, float(t)) for t in theta]
    for n in range(0, nmax+1):
        for m in range(0, n+1):
            w = np.array([x[0][n, m] for x in want])
            rec.bulk(w.size, np.count_nonzero(w), sample=(nmax, n, m))
            # functions vanishing at the poles are accurate relative to their own size
            s = np.sin(np.radians(np.minimum(np.abs(theta), 180-np.abs(theta))))
            rec.ok(np.all(np.abs(Pnm[n, m] - w) <= 1e-12*(n+1)*np.minimum(1., 2.*(n+1)**min(m, 2)*s**min(m, 1))),
                   f'{fid}:P:{n}:{m}', f'P({n},{m}) nmax={nmax}: {Pnm[n, m]} expected {w}')
            if n >= 1:
                d = np.array([x[1][n, m] for x in want])
                rec.bulk(d.size, np.count_nonzero(d))
                rec.ok(np.all(np.abs(Pnm[m, n+1] - d) <= 3e-13*(n+1)**2), f'{fid}:dP:{n}:{m}',
                       f'dP({n},{m}) nmax={nmax}: {Pnm[m, n+1]} expected {d}')


def table(rec, nmax):
    from chaosmagpy import model_utils as mu
    theta = np.array(TH if nmax <= 85 else TH[:3] + [33.3, 90., 133.])
    Pnm = mu.legendre_poly(nmax, theta)
    if rec.ok(Pnm.shape[2:] == theta.shape and Pnm.shape[0] >= nmax+1 and Pnm.shape[1] >= nmax+2, 'shape', f'shape {Pnm.shape}'):
        compare(rec, nmax, Pnm, theta, f'table:{nmax}')


def shapes(rec):
    from chaosmagpy import model_utils as mu
    base = np.array([0., 180., 20., 90., 120., 5.])
    for nmax in (1, 2, 3, 4, 7):
        for shape in [(), (1,), (6,), (2, 3), (3, 2, 1), (1, 1, 6)]:
            for conv in (float, np.float32, int):
                t = base[:int(np.prod(shape, dtype=int))].reshape(shape).astype(conv)
                P = mu.legendre_poly(nmax, t)
                rec.case((nmax, shape, str(conv)))
                if rec.ok(P.shape[2:] == shape, f'shape:{nmax}:{shape}', f'trailing shape {P.shape[2:]} for input {shape}'):
                    Pf = P.reshape(P.shape[:2] + (-1,))
                    if conv is not np.float32:
                        compare(rec, nmax, Pf, t.ravel(), f'shape:{nmax}:{shape}:{conv.__name__}')
                    else:
                        Q = mu.legendre_poly(nmax, t.astype(float)).reshape(Pf.shape)
                        rec.close(f'f32:{nmax}:{shape}', Pf, Q, 1e-6, 1e-6, 'single precision input')
        for t in (33.3, 0., 180., np.float64(90.)):
            P = mu.legendre_poly(nmax, t)
            rec.ok(P.ndim == 2, f'scalar:{nmax}:{t}', f'shape {P.shape}')
            compare(rec, nmax, P.reshape(P.shape[:2] + (1,)), np.array([float(t)]), f'scalar:{nmax}:{t}')


def identities(rec, nmax):
    """Orthogonality and normalisation by exact Gauss-Legendre quadrature: int P P = 4/(2n+1), 2/(2n+1) for m=0."""
    from chaosmagpy import model_utils as mu
    x, w = np.polynomial.legendre.leggauss(nmax + 2)
    P = mu.legendre_poly(nmax, np.degrees(np.arccos(x)))
    for m in range(0, nmax+1):
        A = P[max(m, 1):nmax+1, m]
        G = (A*w) @ A.T
        n = np.arange(max(m, 1), nmax+1)
        want = np.diag((2. if m == 0 else 4.)/(2*n+1))
        rec.bulk(G.size, len(n), sample=('orthogonality', m))
        rec.close(f'orth:{m}', G, want, 0, 1e-12*nmax, 'orthogonality')


def several(rec):
    """The same colatitudes as scalars, in deep arrays, repeated, in other orders and as integers."""
    from chaosmagpy import model_utils as mu
    from mc.large import tiled
    th = np.array([0., 180., 20.3, 90., 120., 5., 1e-7, 179.9999, 33., 60., 135.])
    for nmax in (1, 2, 5, 12):
        tiled(rec, f'{nmax}', lambda x: np.moveaxis(mu.legendre_poly(nmax, x), (0, 1), (-2, -1)), (th,), sizes=(1001, 20000))
