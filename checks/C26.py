"""C26: walks between the geographic and the magnetic frames."""
import itertools
import math
import numpy as np
from mc import ref

PROPERTY, LEVEL = 'C26', 'model_checking'
RULE = ('every walk geographic -> frame -> geographic -> ... up to the length bound over the frames GSM, SM and MAG with several times and '
        'dipoles per leg, for points and for horizontal vectors (scalars and arrays); after every leg the physical position and vector are '
        'rebuilt in Cartesian geographic components and compared with the start.  Then every argument form and shape of the single transformation.')
ASSUMPTIONS = ['the sun direction is the one of sun_position (C29)']
DIP = [None, (9.69, 287.37), (35., -100.)]
TIMES = [0., -9000.3, 7305.62]


def legs():
    out = [('mag', None, d) for d in DIP]
    out += [(f, t, d) for f in ('gsm', 'sm') for t, d in ((0., None), (7305.62, DIP[2]), (-9000.3, DIP[1]))]
    return out


def tasks(tier):
    n = len(legs())
    L = 5 if tier == 'thorough' else 4
    return [('walks', dict(first=i, L=L)) for i in range(n)] + [('single', dict(frame=f, tier=tier)) for f in ('gsm', 'sm', 'mag')] + [('shapes', {}), ('refused', {}), ('many', {})]


def unit(th, ph):
    t, p = np.radians(th), np.radians(ph)
    return np.stack(np.broadcast_arrays(np.sin(t)*np.cos(p), np.sin(t)*np.sin(p), np.cos(t)), -1)


def local(th, ph):
    """South and east unit vectors."""
    t, p = np.radians(th), np.radians(ph)
    s = np.stack(np.broadcast_arrays(np.cos(t)*np.cos(p), np.cos(t)*np.sin(p), -np.sin(t)), -1)
    e = np.stack(np.broadcast_arrays(-np.sin(p), np.cos(p), 0*t), -1)
    return s, e


def frame(f, t, d):
    """Rows are the base vectors in geographic components (reference)."""
    from chaosmagpy import coordinate_utils as cu, basicConfig as cfg
    if d is None:
        g = cfg['params.dipole']
        m = -np.array([g[1], g[2], g[0]])/math.sqrt(g@g)
    else:
        m = unit(*d)
    if f == 'mag':
        y = np.cross([0, 0, 1.], m)
        y /= math.sqrt(y@y)
        return np.array([np.cross(y, m), y, m])
    s = unit(*cu.sun_position(np.float64(t)))
    if f == 'gsm':
        y = np.cross(m, s)
        y /= math.sqrt(y@y)
        return np.array([s, y, np.cross(s, y)])
    y = np.cross(m, s)
    y /= math.sqrt(y@y)
    return np.array([np.cross(y, m), y, m])


def points():
    th = [0.001, 10., 45., 80., 90., 120.5, 175., 179.99]
    ph = [-180., -179.9999, -90., 0., 15.25, 100., 180., 270.]
    T, P = np.meshgrid(th, ph)
    return T.ravel(), P.ravel()


def agree(rec, fid, what, th, ph, M, X, tol=1e-11):
    """Angles in frame M describe the geographic unit vectors X."""
    got = unit(th, ph) @ M
    rec.ok(np.shape(th) == X.shape[:-1] and np.all(np.abs(got - X) <= tol), fid, f'{what}: physical position moved by {np.max(np.abs(got - X)) if np.shape(got) == X.shape else "shape"}')
    rec.ok(np.all((np.asarray(th) >= 0) & (np.asarray(th) <= 180)) and np.all(np.abs(ph) <= 180), fid + ':range', f'{what}: angles out of range')


def walks(rec, first, L):
    from chaosmagpy import coordinate_utils as cu
    T0, P0 = points()
    X = unit(T0, P0)
    bt, bp = ref.lcg(T0.size, 5, -3, 3), ref.lcg(T0.size, 6, -3, 3)
    s, e = local(T0, P0)
    V = bt[:, None]*s + bp[:, None]*e
    A = legs()
    mats = [frame(*a) for a in A]

    def walk(seq, th, ph, vt, vp, ut, up):
        """(th, ph) by points; (vt, vp) with vector (ut, up)."""
        i = seq[-1]
        f, t, d = A[i]
        kw = dict(time=t, reference=f, dipole=d)
        name = '>'.join(f'{A[k][0]}@{A[k][1]}/{A[k][2]}' for k in seq)
        M = mats[i]
        th1, ph1 = cu.transform_points(th, ph, **kw)
        vt1, vp1, ut1, up1 = cu.transform_vectors(vt, vp, ut, up, **kw)
        rec.step(2)
        agree(rec, f'to:{name}', f'walk {name}', th1, ph1, M, X)
        agree(rec, f'vto:{name}', f'walk {name} (vectors)', vt1, vp1, M, X)
        rec.ok(np.allclose(th1, vt1, atol=1e-9) and np.allclose(unit(th1, ph1), unit(vt1, vp1), atol=1e-11), f'same:{name}', 'points and vectors disagree on the position')
        s1, e1 = local(vt1, vp1)
        W = (ut1[:, None]*s1 + up1[:, None]*e1) @ M
        near = np.minimum(vt1, 180-vt1)
        tol = 1e-9 + 1e-10/np.radians(near)
        rec.ok(np.all(np.abs(W - V) <= tol[:, None]), f'vec:{name}', f'walk {name}: physical vector changed by {np.max(np.abs(W-V))}')
        rec.ok(np.all(np.abs(ut1**2 + up1**2 - bt**2 - bp**2) <= tol*50), f'len:{name}', f'walk {name}: length changed')
        th2, ph2 = cu.transform_points(th1, ph1, inverse=True, **kw)
        vt2, vp2, ut2, up2 = cu.transform_vectors(vt1, vp1, ut1, up1, inverse=True, **kw)
        rec.step(2)
        agree(rec, f'back:{name}', f'walk {name} and back', th2, ph2, np.eye(3), X)
        s2, e2 = local(vt2, vp2)
        W = ut2[:, None]*s2 + up2[:, None]*e2
        tol = tol + 1e-10/np.radians(np.minimum(T0, 180-T0))
        rec.ok(np.all(np.abs(W - V) <= tol[:, None]), f'vback:{name}', f'walk {name} and back: physical vector changed by {np.max(np.abs(W-V))}')
        rec.ok(np.allclose(unit(vt2, vp2), X, atol=1e-11), f'pback:{name}', 'vector transformation moved the position')
        rec.state((A[i], len(seq)))
        rec.trace(1, sample=name)
        if len(seq) < L:
            for k in range(len(A)):
                walk(seq + [k], th2, ph2, vt2, vp2, ut2, up2)
    walk([first], T0, P0, T0, P0, bt, bp)


def single(rec, frame, tier):
    """One leg for many times, scalars, frames given by base vectors, and the matrix form."""
    from chaosmagpy import coordinate_utils as cu
    n = 5 if tier != 'thorough' else 23
    for d in DIP:
        for t in np.linspace(-36000, 36000, n):
            t = float(t) if frame != 'mag' else None
            M = globals()['frame'](frame, t, d)
            base = list(M)
            for th, ph in itertools.product((0., 0.5, 60., 90., 150., 180.), (-180., -20., 0., 77.7, 180.)):
                x = unit(th, ph)
                q = cu.transform_points(th, ph, t, reference=frame, dipole=d)
                fid = f'{frame}:{d}:{t}:{th}:{ph}'
                agree(rec, fid, f'{frame} at {t} of ({th}, {ph})', np.asarray(q[0]), np.asarray(q[1]), M, x)
                z = cu.transform_points(th, ph, t, reference=frame.upper(), inverse=True, dipole=d)
                agree(rec, fid + ':inv', f'inverse {frame} at {t} of ({th}, {ph})', np.asarray(z[0]), np.asarray(z[1]), np.eye(3), M.T @ x)
                for spell in (frame.upper(), frame.title()):
                    rec.ok(np.array_equal(cu.transform_points(th, ph, t, reference=spell, dipole=d), q), fid + f':{spell}', f'{spell} differs from {frame}')
                b = cu.geo_to_base(th, ph, *base)
                rec.ok(np.allclose(unit(*b), M @ x, atol=1e-12), fid + ':base', 'geo_to_base')
                b = cu.geo_to_base(th, ph, *base, inverse=True)
                rec.ok(np.allclose(unit(*b), M.T @ x, atol=1e-12), fid + ':baseinv', 'geo_to_base inverse')
                rec.step(4)
                rec.state((frame, d, t))
                if 0 < th < 180:
                    for inv in (False, True):
                        a, p, R = cu.matrix_geo_to_base(th, ph, *base, inverse=inv)
                        y = (M.T if inv else M) @ x
                        rec.ok(np.allclose(unit(a, p), y, atol=1e-12), fid + f':mpos{inv}', 'matrix_geo_to_base position')
                        rec.ok(R.shape == (3, 3) and np.allclose(R @ R.T, np.eye(3), atol=1e-12) and abs(R[0, 0] - 1) < 1e-12 and np.allclose(R[0, 1:], 0, atol=1e-12), fid + f':m{inv}', f'rotation {R}')
                        s, e = local(th, ph)
                        s1, e1 = local(a, p)
                        Q = M.T if inv else M
                        want = np.array([[s1 @ Q @ s, s1 @ Q @ e], [e1 @ Q @ s, e1 @ Q @ e]])
                        rec.ok(np.allclose(R[1:, 1:], want, atol=1e-11), fid + f':mat{inv}', f'matrix {R[1:, 1:]}, expected {want}')
                        v = cu.transform_vectors(th, ph, 1.5, -2., t, frame, inverse=inv, dipole=d)
                        for spell in (frame.upper(), frame.title()):
                            u = cu.transform_vectors(th, ph, 1.5, -2., t, spell, inverse=inv, dipole=d)
                            rec.ok(np.array_equal(u, v), fid + f':{spell}{inv}', f'{spell} gives {u}, {frame} gives {v}')
                        w = want @ np.array([1.5, -2.])
                        rec.ok(np.allclose(v[2:], w, atol=1e-10) and np.allclose(unit(*v[:2]), y, atol=1e-12), fid + f':v{inv}', f'vector {v}, expected {w}')
                        rec.step(2)
                rec.trace()


def shapes(rec):
    from chaosmagpy import coordinate_utils as cu
    S = [(), (1,), (3,), (2, 1), (2, 3)]
    for a, b, c in itertools.product(S, repeat=3):
        sh = np.broadcast_shapes(a, b, c)
        th, ph = ref.lcg(int(np.prod(a)), 1, 5, 175).reshape(a), ref.lcg(int(np.prod(b)), 2, -180, 180).reshape(b)
        t = ref.lcg(int(np.prod(c)), 3, -3000, 9000).reshape(c)
        A, B, C = np.broadcast_arrays(th, ph, t)
        args = [v.copy() for v in (th, ph, t)]
        for f in ('gsm', 'sm', 'mag'):
            for inv in (False, True):
                tag = f'{f}:{a}{b}{c}:{inv}'
                try:
                    got = cu.transform_points(th, ph, t, reference=f, inverse=inv)
                    vec = cu.transform_vectors(th, ph, 2*th, ph, t, f, inverse=inv)
                except Exception as e:
                    rec.fail(tag, f'{f} for shapes {a}, {b}, {c}: {e!r}')
                    continue
                rec.step(2)
                rec.state((f, a, b, c, inv))
                want = np.array([cu.transform_vectors(float(x), float(y), float(2*x), float(y), float(z), f, inverse=inv) for x, y, z in zip(A.ravel(), B.ravel(), C.ravel())])
                for i in range(4):
                    rec.close(f'{tag}:{i}', np.broadcast_to(vec[i], sh), want[:, i].reshape(sh), 0, 1e-8, what=f'{f} vectors for shapes {a}, {b}, {c}')
                for i in range(2):
                    rec.close(f'{tag}:p{i}', np.broadcast_to(got[i], sh), want[:, i].reshape(sh), 0, 1e-9, what=f'{f} points for shapes {a}, {b}, {c}')
                rec.trace()
        rec.ok(all(np.array_equal(x, y) for x, y in zip(args, (th, ph, t))), f'mutates:{a}{b}{c}', 'arguments modified')


def refused(rec):
    from chaosmagpy import coordinate_utils as cu
    for f in (None, 'x', 'geo', ''):
        for g in (cu.transform_points, lambda *a, **k: cu.transform_vectors(*a[:2], 1., 2., **k)):
            rec.raises(f'frame:{f}', ValueError, g, 30., 40., time=0., reference=f, what='unknown frame')
            rec.step()
    for f in ('gsm', 'sm'):
        for t in (-36900., 36600.):
            rec.raises(f'time:{f}:{t}', Exception, cu.transform_points, 30., 40., t, reference=f, what='time outside the ephemeris')
            rec.step()
    for th in (0., 180.):
        rec.raises(f'pole:{th}', ValueError, cu.transform_vectors, th, 40., 1., 2., 0., 'gsm', what='vector at a pole')
        rec.step()
    rec.state('refused')
    rec.trace()


def many(rec):
    """Long arrays."""
    from chaosmagpy import coordinate_utils as cu
    from mc.large import tiled
    t = np.array([-36000.3, -0.5, 0., 0.25, 0.999, 1000.1, 7305.5, 9000.75, 12.1, 3.3, 18000.])
    th, ph = ref.lcg(11, 1, 1, 179), ref.lcg(11, 2, -300, 300)
    X, Z = ref.lcg(11, 3, -50000, 50000), ref.lcg(11, 4, -50000, 50000)
    for frame, inverse in itertools.product(('gsm', 'sm', 'mag'), (False, True)):
        kw = dict(reference=frame, inverse=inverse)
        if frame == 'mag':
            tiled(rec, f'p:{frame}:{inverse}', lambda a, b: tuple(cu.transform_points(a, b, **kw)), (th, ph), tol=1e-11)
            tiled(rec, f'v:{frame}:{inverse}', lambda a, b, x, z: tuple(cu.transform_vectors(a, b, x, z, **kw)), (th, ph, X, Z), tol=1e-11)
            base = cu.basevectors_mag()
            tiled(rec, f'g:{inverse}', lambda a, b: tuple(cu.geo_to_base(a, b, *base, inverse=inverse)), (th, ph), tol=1e-11)
            tiled(rec, f'm:{inverse}', lambda a, b: tuple(cu.matrix_geo_to_base(a, b, *base, inverse=inverse)), (th, ph), tol=1e-11)
        else:
            tiled(rec, f'p:{frame}:{inverse}', lambda a, b, s: tuple(cu.transform_points(a, b, s, **kw)), (th, ph, t), tol=1e-11)
            tiled(rec, f'v:{frame}:{inverse}', lambda a, b, x, z, s: tuple(cu.transform_vectors(a, b, x, z, s, **kw)), (th, ph, X, Z, t), tol=1e-11)
