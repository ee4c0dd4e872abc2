"""C27: rotation matrices of Gauss coefficients."""
import itertools
import math
import numpy as np
from mc import ref

PROPERTY, LEVEL = 'C27', 'exploration'
RULE = ('every frame of the set (the 48 signed permutations of the axes, rotations about generic axes by a lattice of angles including tiny '
        'ones, and the magnetic frames at several times) x every pair of degrees up to the bound; each column of the matrix is compared '
        'with the rotated basis function at a unisolvent set of points evaluated in 60-digit arithmetic; products, inverses and all '
        'leading shapes.')
ASSUMPTIONS = []


def proper(axis, ang):
    a = np.array(axis, float)
    a /= math.sqrt(a@a)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(ang)*K + (1-math.cos(ang))*K@K


def frame_set(tier):
    F = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            F.append((f'perm{p}{s}', np.eye(3)[list(p)]*np.array(s)[:, None]))
    ang = [1e-9, 1e-4, 0.3, 1.5, 3.0] if tier != 'thorough' else [1e-12, 1e-9, 1e-6, 1e-4, 0.01, 0.3, 0.9, 1.5, 2.2, 3.0, 3.1415]
    for ax in ((0, 0, 1), (1, 0, 0), (1, 2, 3), (-2, 1, 0.1)):
        for x in ang:
            F.append((f'rot{ax}{x}', proper(ax, x)))
            if x in (0.3, 3.0):
                F.append((f'refl{ax}{x}', -proper(ax, x)))
    return F


def tasks(tier):
    n = len(frame_set(tier))
    return [('columns', dict(lo=a, hi=min(a+6, n), tier=tier)) for a in range(0, n, 6)] + [('algebra', dict(tier=tier)), ('shapes', {}), ('several', {}), ('long', {}), ('magnetic', {}), *[('high', dict(n=n)) for n in ((8, 9, 10, 14, 20) if tier != 'thorough' else (*range(6, 21), 25))]]


def rows(M):
    return M[0], M[1], M[2]


def basis(nms, X):
    """Schmidt harmonics at unit vectors X (points, 3) -> (points, functions)."""
    out = np.zeros((len(X), len(nms)))
    nmax = max(n for n, _, _ in nms)
    for i, x in enumerate(X):
        th = math.degrees(math.atan2(math.hypot(x[0], x[1]), x[2]))
        P, _, _ = ref.legendre(nmax, th)
        ph = math.atan2(x[1], x[0])
        for j, (n, m, k) in enumerate(nms):
            out[i, j] = P[n, m]*(math.cos(m*ph) if k == 'c' else math.sin(m*ph))
    return out


def nodes(n):
    """Fibonacci points, more than functions: the collocation matrix has full rank."""
    N = 2*(n+1)**2
    i = np.arange(N) + 0.5
    z = 1 - 2*i/N
    p = i*2.399963229728653
    s = np.sqrt(1-z*z)
    return np.stack([s*np.cos(p), s*np.sin(p), z], -1)


def columns(rec, lo, hi, tier):
    from chaosmagpy import coordinate_utils as cu
    top = 4 if tier != 'thorough' else 5
    X = nodes(top)
    nms = ref.nm_list(1, top)
    Y = basis(nms, X)
    rec.ok(np.linalg.matrix_rank(Y) == len(nms), 'nodes', 'reference points are not unisolvent')
    for name, M in frame_set(tier)[lo:hi]:
        Z = basis(nms, X @ M.T)
        for nmax, kmax in itertools.product(range(1, top+1), repeat=2):
            R = cu.rotate_gauss(nmax, kmax, *rows(M))
            tag = f'{name}:{nmax}:{kmax}'
            a, b = nmax*(nmax+2), kmax*(kmax+2)
            rec.case((name, nmax, kmax), nontrivial=name != 'perm(0, 1, 2)(1, 1, 1)')
            if not rec.ok(R.shape == (a, b), f'shape:{tag}', f'shape {R.shape}'):
                continue
            c = min(a, b)
            rec.close(f'col:{tag}', Y[:, :c] @ R[:c, :c], Z[:, :c], 0, 1e-11, what=f'potential of the rotated coefficients in frame {name}')
            deg = np.array([n for n, _, _ in nms])
            off = R[deg[:a, None] != deg[None, :b]]
            rec.ok(off.size == 0 or np.max(np.abs(off)) < 1e-12, f'block:{tag}', 'degrees mix')
            if nmax == kmax:
                rec.ok(np.allclose(R @ R.T, np.eye(a), atol=1e-11), f'orth:{tag}', 'not orthogonal')
                rec.close(f'vec:{tag}', R[:3, :3], dipole_block(M), 0, 1e-12, what='degree-one block')


def dipole_block(M):
    """Degree one rotates like a vector: coefficients (g10, g11, h11) = (z, x, y)."""
    P = [2, 0, 1]
    return M.T[np.ix_(P, P)]


def algebra(rec, tier):
    from chaosmagpy import coordinate_utils as cu
    F = frame_set('quick')
    F = F[::5] + F[-12:]
    n = 3
    R = [cu.rotate_gauss(n, n, *rows(M)) for _, M in F]
    for (i, (a, A)), (j, (b, B)) in itertools.product(enumerate(F), repeat=2):
        C = cu.rotate_gauss(n, n, *rows(A @ B))
        # coefficients in frame A∘B go to B's frame with R_A and on with R_B
        rec.close(f'compose:{a}:{b}', C, R[j] @ R[i], 0, 1e-11, what=f'composition of {a} and {b}')
        rec.case((a, b))
    for i, (a, A) in enumerate(F):
        rec.close(f'inverse:{a}', cu.rotate_gauss(n, n, *rows(A.T)), R[i].T, 0, 1e-11, what=f'inverse of {a}')
        rec.case((a, 'inv'))


def shapes(rec):
    from chaosmagpy import coordinate_utils as cu
    F = [M for _, M in frame_set('quick')][3::4]
    for sh in ((), (1,), (5,), (2, 3), (2, 1, 2), (0,)):
        k = int(np.prod(sh))
        B = np.array(F[:k]).reshape(sh + (3, 3)) if k else np.zeros(sh + (3, 3))
        keep = B.copy()
        R = cu.rotate_gauss(2, 3, B[..., 0, :], B[..., 1, :], B[..., 2, :])
        rec.case(sh)
        if not rec.ok(R.shape == sh + (8, 15), f'shape:{sh}', f'shape {R.shape} for leading {sh}'):
            continue
        for i in np.ndindex(*sh):
            rec.close(f'el:{sh}:{i}', R[i], cu.rotate_gauss(2, 3, *rows(B[i])), 0, 1e-14, what=f'element {i} of leading shape {sh}')
        rec.ok(np.array_equal(B, keep), f'mutates:{sh}', 'arguments modified')
    rec.raises('mismatch', Exception, cu.rotate_gauss, 2, 2, np.zeros((2, 3)), np.zeros((3, 3)), np.zeros((2, 3)), what='base vectors of different shapes')


def magnetic(rec):
    """With the magnetic frames: field values, internal and external, of rotated coefficients."""
    from chaosmagpy import coordinate_utils as cu, model_utils as mu
    t = np.array([0., -9000.3, 7305.62])
    n = 3
    c = ref.lcg(15, 2)
    th, ph = np.meshgrid([5., 60., 117., 170.], [-170., -30., 44., 120.])
    for name, base in (('gsm', cu.basevectors_gsm(t)), ('sm', cu.basevectors_sm(t)), ('mag', [np.broadcast_to(x, (3, 3)) for x in cu.basevectors_mag()])):
        R = cu.rotate_gauss(n, n, *base)
        for i in range(t.size):
            tf, pf = cu.geo_to_base(th, ph, *[b[i] for b in base])
            for source in ('internal', 'external'):
                a = mu.synth_values(R[i] @ c, 7000., th, ph, source=source)
                b = mu.synth_values(c, 7000., tf, pf, source=source)
                rec.close(f'{name}:{i}:{source}', a[0], b[0], 0, 1e-11, what=f'radial field in {name}')
                rec.close(f'{name}:{i}:{source}:h', a[1]**2 + a[2]**2, b[1]**2 + b[2]**2, 0, 1e-11, what=f'horizontal field in {name}')
                rec.case((name, i, source))


def high(rec, n):
    """High and unequal degrees: orthogonality, block structure and the rotated field."""
    from chaosmagpy import coordinate_utils as cu
    M = proper((1, 2, 3), 0.7)
    for nmax, kmax in ((n, n), (n, 1), (1, n), (n, n-1), (n-1, n)):
        R = cu.rotate_gauss(nmax, kmax, *rows(M))
        nm = ref.nm_list(1, n)
        deg = np.array([k for k, _, _ in nm])
        a, b = nmax*(nmax+2), kmax*(kmax+2)
        off = R[deg[:a, None] != deg[None, :b]]
        rec.ok(off.size == 0 or np.max(np.abs(off)) < 1e-11, f'block:{nmax}:{kmax}', 'degrees mix')
        c = min(a, b)
        rec.ok(np.allclose(R[:c, :c] @ R[:c, :c].T, np.eye(c), atol=1e-10), f'orth:{nmax}:{kmax}', 'not orthogonal')
        X = nodes(2)
        rec.close(f'val:{nmax}:{kmax}', basis(nm[:c], X) @ R[:c, :c], basis(nm[:c], X @ M.T), 0, 1e-10, what='potential')
        rec.case((nmax, kmax))


def long(rec):
    """Many base vectors at once: every element as if alone."""
    from chaosmagpy import coordinate_utils as cu
    for sh in ((300,), (40, 30), (1000, 1), (2, 1, 550)):
        k = int(np.prod(sh))
        ax, ang = ref.lcg(3*k, k, -1, 1).reshape(k, 3) + [0, 0, 1.5], ref.lcg(k, 2, 0, 3)
        B = np.array([proper(a, x) for a, x in zip(ax, ang)]).reshape(sh + (3, 3))
        R = cu.rotate_gauss(2, 1, B[..., 0, :], B[..., 1, :], B[..., 2, :])
        if not rec.ok(R.shape == sh + (8, 3), f'long:{sh}', f'shape {R.shape}'):
            continue
        want = np.zeros((k, 8, 3))
        want[:, :3] = [dipole_block(M) for M in B.reshape(k, 3, 3)]
        rec.close(f'long:{sh}', R.reshape(k, 8, 3), want, 0, 1e-11, what='degree-one block of every element')
        rec.bulk(k, sample=('long', sh))


def several(rec):
    """The same frames alone, in deep arrays, repeated, in other orders and as integers."""
    from chaosmagpy import coordinate_utils as cu
    from mc.large import forms
    M = np.array([np.eye(3)] + [proper(a, g) for a, g in (((0, 0, 1.), 90.), ((1., 0, 0), 180.), ((0, 1., 0), 270.), ((1., 1., 1.), 120.), ((1., 2., -1.), 33.), ((0, 0.3, 1.), -77.))])
    for n, k in ((1, 1), (2, 2), (3, 2), (2, 3)):
        forms(rec, f'{n}:{k}', lambda a, b, c: cu.rotate_gauss(n, k, a, b, c), (M[:, 0], M[:, 1], M[:, 2]), tol=1e-11)
        for i in range(5):
            I = np.round(M[i]).astype(int)
            if np.allclose(I, M[i]):
                rec.close(f'int:{n}:{k}:{i}', cu.rotate_gauss(n, k, I[0], I[1], I[2]), cu.rotate_gauss(n, k, M[i, 0], M[i, 1], M[i, 2]), 0, 1e-12, 'integer base vectors')
                rec.case(('int', n, k, i))
