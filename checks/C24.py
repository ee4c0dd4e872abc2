"""C24: geodetic and geocentric coordinates and vectors."""
import itertools
import numpy as np
from mc import ref

PROPERTY, LEVEL = 'C24', 'exploration'
RULE = ('every point of a lattice of ellipsoids, heights (from 2800 km below to 100000 km above the surface) and geodetic colatitudes with '
        'poles, equator and their floating-point neighbours, and every combination of argument shapes, against the construction along the '
        'ellipsoid normal; vectors against explicit unit vectors.')
ASSUMPTIONS = ['round trips are required to 1e-6 km and 1e-9 degrees (2e-6 degrees within 1e-6 degrees of the axis)']
ELL = [(6378.137, 6356.752), (6371.2, 6371.2), (6400., 6300.), (6378.1370, 6356.7523142), (1., 0.99665), (6371., 6000.)]


def tasks(tier):
    n = 361 if tier == 'thorough' else 91
    return [('lattice', dict(e=i, n=n, m=40 if tier == 'thorough' else 14)) for i in range(len(ELL))] + [('shapes', {}), ('base', {}), ('many', {})]


def heights(a, m):
    h = np.concatenate([np.linspace(-0.4, 0.1, m), [0., 1e-9, 450/6371, 0.5, 1., 5., 15.], np.geomspace(1e-6, 1e-2, m//4)])
    return sorted({float(x*a) for x in h})


def colat(n):
    x = list(np.linspace(0., 180., n))
    for c in (0., 90., 180.):
        x += [c + d for d in (-1e-3, -1e-6, -1e-9, 1e-9, 1e-6, 1e-3)] + [float(np.nextafter(c, -1)), float(np.nextafter(c, 999))]
    return np.array(sorted({float(v) for v in x if 0 <= v <= 180}))


def position(a, b, h, beta):
    """Along the normal: point of the ellipsoid plus h times the unit normal, (rho, z)."""
    sb, cb = np.sin(np.radians(beta)), np.cos(np.radians(beta))
    # near the poles use complementary angles so that the reference is exact there
    sb = np.where(beta > 90, np.sin(np.radians(180 - beta)), sb)
    w = np.sqrt((a*sb)**2 + (b*cb)**2)
    return (a*a/w + h)*sb, (b*b/w + h)*cb


def lattice(rec, e, n, m):
    from chaosmagpy import coordinate_utils as cu, basicConfig as cfg
    a, b = ELL[e]
    cfg['params.ellipsoid'] = np.array([a, b])
    beta = colat(n)
    k = 6371.2/a    # scale for tolerances
    for h in heights(a, m):
        rho, z = position(a, b, h, beta)
        r, th = cu.gg_to_geo(h, beta)
        tag = f'{e}:{h!r}'
        if not rec.ok(np.shape(r) == beta.shape and np.shape(th) == beta.shape, f'shape:{tag}', 'shape of result'):
            continue
        rec.close(f'r:{tag}', r, np.hypot(rho, z), 1e-12, 0, what=f'radius at height {h}')
        rec.close(f'th:{tag}', th, np.degrees(np.arctan2(rho, z)), 0, 1e-11, what=f'colatitude at height {h}')
        rec.ok(np.all((th >= -1e-12) & (th <= 180 + 1e-12)), f'range:{tag}', 'colatitude range')
        H, B = cu.geo_to_gg(r, th)
        rec.close(f'h:{tag}', H*k, np.full(beta.shape, h*k), 0, 1e-6, what=f'height back at {h}')
        near = (beta < 1e-5) | (beta > 180 - 1e-5)
        rec.close(f'b:{tag}', B[~near], beta[~near], 0, 1e-9, what=f'geodetic colatitude back at {h}')
        rec.close(f'bn:{tag}', B[near], beta[near], 0, 2e-6, what=f'geodetic colatitude back near the axis at {h}')
        # vectors: components along the three directions and generic ones
        s, c = np.sin(np.radians(beta)), np.cos(np.radians(beta))
        st, ct = np.sin(np.radians(th)), np.cos(np.radians(th))
        for X, Z in ((1., 0.), (0., 1.), (-2.5, 7.)):
            # (rho, z) components of X*north + Z*down
            v = X*np.array([-c, s]) - Z*np.array([s, c])
            want_r, want_t = v[0]*st + v[1]*ct, v[0]*ct - v[1]*st
            r2, th2, Br, Bt = cu.gg_to_geo(h, beta, X, Z)
            rec.ok(np.array_equal(r2, r) and np.array_equal(th2, th), f'same:{tag}', 'positions with and without vectors differ')
            rec.close(f'Br:{tag}:{X}', Br, want_r, 0, 1e-11, what='radial component')
            rec.close(f'Bt:{tag}:{X}', Bt, want_t, 0, 1e-11, what='colatitude component')
            H2, B2, X2, Z2 = cu.geo_to_gg(r, th, Br, Bt)
            rec.ok(np.array_equal(H2, H) and np.array_equal(B2, B), f'same2:{tag}', 'positions with and without vectors differ')
            tol = np.where(near, 1e-6, 1e-10)
            rec.ok(np.all(np.abs(X2 - X) <= tol*10) and np.all(np.abs(Z2 - Z) <= tol*10), f'XZ:{tag}:{X}', f'vector ({X}, {Z}) comes back as ({X2}, {Z2})')
            rec.ok(np.all(np.abs(Br**2 + Bt**2 - X*X - Z*Z) <= 1e-10), f'len:{tag}', 'length changes')
        for i in range(0, beta.size, 7):   # scalars
            one = np.array(cu.gg_to_geo(h, float(beta[i])))
            rec.close(f'one:{tag}:{i}', one, [r[i], th[i]], 1e-12, 1e-11, what='scalar and array differ')
            rec.close(f'one2:{tag}:{i}', np.array(cu.geo_to_gg(float(r[i]), float(th[i])))*[k, 1], [H[i]*k, B[i]], 1e-9, 1e-8 if not near[i] else 2e-6, what='scalar and array differ')
        rec.bulk(5*beta.size, sample=(a, b, h))
        # symmetric in the equator
        r3, th3 = cu.gg_to_geo(h, 180. - beta)
        rec.close(f'sym:{tag}', np.array(r3), np.array(r), 1e-12, 0, what='mirror radius')
        rec.close(f'symt:{tag}', 180 - np.array(th3), np.array(th), 0, 1e-10, what='mirror colatitude')


def base(rec):
    from chaosmagpy import coordinate_utils as cu
    for th, be in itertools.product(np.linspace(0, 180, 19), np.linspace(0, 180, 19)):
        v = [np.asarray(x) for x in cu.basevectors_gg(th, be)]
        rec.case((th, be))
        M = np.stack(v)
        rec.ok(np.allclose(M @ M.T, np.eye(3), atol=1e-14), f'ortho:{th}:{be}', f'{M}')
        t, b = np.radians(th), np.radians(be)
        er, et = np.array([np.sin(t), np.cos(t)]), np.array([np.cos(t), -np.sin(t)])
        north, down = np.array([-np.cos(b), np.sin(b)]), np.array([-np.sin(b), -np.cos(b)])
        want = np.array([[north@er, north@et, 0], [0, 0, 1], [down@er, down@et, 0]])
        rec.ok(np.allclose(M, want, atol=1e-14), f'dir:{th}:{be}', f'base vectors {M}, expected {want}')
        rec.ok(np.allclose(np.cross(v[0], v[1]), v[2], atol=1e-14), f'hand:{th}:{be}', 'north, east, down is right-handed')
    a = cu.basevectors_gg(np.array([[10.], [20.]]), np.array([11., 12., 13.]))
    rec.ok(all(x.shape == (2, 3, 3) for x in a), 'shape', 'shapes broadcast')


def shapes(rec):
    from chaosmagpy import coordinate_utils as cu
    S = [(), (1,), (3,), (2, 1), (2, 3)]
    for a, b in itertools.product(S, repeat=2):
        sh = np.broadcast_shapes(a, b)
        h, be = ref.lcg(int(np.prod(a)), 1, -10, 500).reshape(a), ref.lcg(int(np.prod(b)), 2, 1, 179).reshape(b)
        H, B = np.broadcast_arrays(h, be)
        want = np.array([cu.gg_to_geo(float(x), float(y)) for x, y in zip(H.ravel(), B.ravel())]).T.reshape((2,) + sh)
        got = cu.gg_to_geo(h, be)
        for i in (0, 1):
            rec.close(f'gg:{a}{b}:{i}', np.broadcast_to(got[i], sh), want[i], 1e-12, 1e-11, what=f'shapes {a}, {b}')
        back = cu.geo_to_gg(h + 6400, be)
        want = np.array([cu.geo_to_gg(float(x) + 6400, float(y)) for x, y in zip(H.ravel(), B.ravel())]).T.reshape((2,) + sh)
        for i in (0, 1):
            rec.close(f'geo:{a}{b}:{i}', np.broadcast_to(back[i], sh), want[i], 1e-9, 1e-8, what=f'shapes {a}, {b}')
        for f, base_ in ((cu.gg_to_geo, 0.), (cu.geo_to_gg, 6400.)):
            for c in S:
                try:
                    full = np.broadcast_shapes(sh, c)
                except ValueError:
                    continue
                u, w = ref.lcg(int(np.prod(c)), 3).reshape(c), ref.lcg(int(np.prod(c)), 4).reshape(c)
                out = f(h + base_, be, u, w)
                plain = f(h + base_, be)
                rec.ok(all(np.array_equal(x, y) for x, y in zip(out, plain)), f'vecpos:{f.__name__}:{a}{b}{c}', 'positions with and without vectors differ')
                U, W, HH, BB = np.broadcast_arrays(u, w, h + base_, be)
                want = np.array([f(float(p), float(q), float(x), float(y))[2:] for p, q, x, y in zip(HH.ravel(), BB.ravel(), U.ravel(), W.ravel())]).T.reshape((2,) + full)
                for i in (0, 1):
                    rec.close(f'vec:{f.__name__}:{a}{b}{c}:{i}', np.broadcast_to(out[2+i], full), want[i], 1e-9, 1e-11, what=f'vector component, shapes {a}, {b}, {c}')
                rec.case((f.__name__, a, b, c))
    x = [np.array([1., 2.]), np.array([30., 60.]), np.array([3., 4.]), np.array([5., 6.])]
    y = [v.copy() for v in x]
    cu.gg_to_geo(*x)
    cu.geo_to_gg(x[0] + 6400, *x[1:])
    rec.ok(all(np.array_equal(p, q) for p, q in zip(x, y)), 'mutates', 'arguments modified')
    for h, b in ((0, 90), (400, 0), (10, 45), (7, 180)):
        rec.close(f'int:{h}:{b}', np.array(cu.gg_to_geo(h, b)), np.array(cu.gg_to_geo(float(h), float(b))), 0, 0, what='integers')
        rec.case((h, b))


def many(rec):
    """Long arrays, with and without vectors."""
    from chaosmagpy import coordinate_utils as cu
    from mc.large import tiled
    th = np.array([0., 1e-9, 12.5, 54.7, 90., 91., 133., 179.999, 180., 45., 7.])
    h = np.array([0., -10., 450., 3000., 0.001, -3000., 20000., 5., 1., 2., 300.])
    X, Z = ref.lcg(11, 1, -50000, 50000), ref.lcg(11, 2, -50000, 50000)
    for f in (cu.gg_to_geo, cu.geo_to_gg):
        a = h if f is cu.gg_to_geo else h + 6371.2
        tiled(rec, f.__name__, lambda *q: tuple(f(*q)), (a, th))
        tiled(rec, f.__name__ + ':v', lambda *q: tuple(f(*q)), (a, th, X, Z))
    tiled(rec, 'base', lambda *q: tuple(cu.basevectors_gg(*q)), (th, np.clip(th + 0.1, 0, 180)))
    for a, b in ((6378.137, 6356.752), (6371.2, 6371.2)):
        from chaosmagpy import basicConfig
        with basicConfig.context('params.ellipsoid', [a, b]):
            for H in (1.5e5, 1e6, 1e8):
                lat = np.radians(90. - th)
                N = a*a/np.sqrt((a*np.cos(lat))**2 + (b*np.sin(lat))**2)
                x, z = (N + H)*np.cos(lat), (N*b*b/a/a + H)*np.sin(lat)
                r, t = cu.gg_to_geo(np.full(th.shape, H), th)
                rec.close(f'far:r:{a}:{H}', r, np.hypot(x, z), 1e-12, 0, 'radius')
                rec.close(f'far:t:{a}:{H}', t, np.degrees(np.arctan2(np.abs(x), z)), 0, 1e-7, 'colatitude')
                h2, b2 = cu.geo_to_gg(r, t)
                rec.close(f'far:h:{a}:{H}', h2, np.full(th.shape, H), 1e-8, 0, 'height and back')
                rec.close(f'far:b:{a}:{H}', b2, th, 0, 1e-6, 'colatitude and back')
                rec.case(('far', a, H))
