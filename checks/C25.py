"""C25: GSM, SM, MAG and spherical base vectors."""
import itertools
import math
import numpy as np
from mc import ref

PROPERTY, LEVEL = 'C25', 'exploration'
RULE = ('every combination of a lattice of times (seasons x hours x years), dipoles (tilts and longitudes around the sphere, including '
        'southern and steep ones) and ways of giving the dipole, against the defining directions; every shape combination of times and '
        'dipoles; the local base at every lattice position including neighbours of the poles.')
ASSUMPTIONS = ['the sun direction is the one of sun_position, checked on its own (C29)', 'MAG is not defined for a dipole along the rotation axis']


def times(tier):
    t = []
    for y in ((-36159., 0., 36000.) if tier != 'thorough' else (-36159., -20000., -5000., 0., 4000., 9000., 36000.)):
        for d in range(0, 366, 61 if tier != 'thorough' else 23):
            for h in ((0., 0.25, 0.6) if tier != 'thorough' else (0., 0.125, 0.25, 0.4, 0.5, 0.75, 0.999)):
                t.append(y + d + h)
    return [x for x in t if -36158 < x < 36150]


def dipoles(tier):
    out = [(9.69, 287.37), (11.32, 289.59), (0.001, 10.), (179.9, 50.)]
    n = 5 if tier != 'thorough' else 12
    return out + [(float(a), float(b)) for a in np.linspace(5, 175, n) for b in np.linspace(-180, 170, n)]


def tasks(tier):
    n = len(dipoles(tier))
    return [('frames', dict(lo=a, hi=min(a+4, n), tier=tier)) for a in range(0, n, 4)] + [('forms', {}), ('shapes', {}), ('use', {}), ('igrf', {}), ('many', {})]


def unit(th, ph):
    t, p = math.radians(th), math.radians(ph)
    return np.array([math.sin(t)*math.cos(p), math.sin(t)*math.sin(p), math.cos(t)])


def ortho(rec, fid, v, tol=1e-12):
    M = np.stack([np.asarray(x, float) for x in v], axis=-2)
    I = np.matmul(M, np.swapaxes(M, -1, -2))
    rec.ok(np.all(np.abs(I - np.eye(3)) <= tol), f'ortho:{fid}', f'base vectors are not orthonormal: {M.reshape(-1, 3, 3)[0]}')
    rec.ok(np.all(np.abs(np.linalg.det(M) - 1) <= tol*10), f'hand:{fid}', 'base vectors are not right-handed')
    return M


def frames(rec, lo, hi, tier):
    from chaosmagpy import coordinate_utils as cu
    t = np.array(times(tier))
    ths, phs = cu.sun_position(t)
    S = np.array([unit(a, b) for a, b in zip(ths, phs)])
    for th, ph in dipoles(tier)[lo:hi]:
        m = unit(th, ph)
        dip = (th, ph)
        tag = f'{th}:{ph}'
        off = np.linalg.norm(np.cross(m, S), axis=-1)   # sine of the angle to the Sun
        good = off > 1e-3
        g = cu.basevectors_gsm(t, dipole=dip)
        s = cu.basevectors_sm(t, dipole=dip)
        ok = all(np.shape(x) == t.shape + (3,) for x in g + s)
        if not rec.ok(ok, f'shape:{tag}', 'shapes of the base vectors'):
            continue
        G = ortho(rec, f'gsm:{tag}', [x[good] for x in g])
        M = ortho(rec, f'sm:{tag}', [x[good] for x in s])
        tol = 1e-13/off[good] + 1e-13
        Sg = S[good]
        rec.ok(np.all(np.abs(G[:, 0] - Sg) <= 1e-13), f'gsmx:{tag}', 'GSM x is not the direction of the Sun')
        rec.ok(np.all(np.abs(G[:, 1] @ m) <= tol), f'gsmy:{tag}', 'dipole is not in the GSM x-z plane')
        rec.ok(np.all(G[:, 2] @ m > 0), f'gsmz:{tag}', 'dipole is not on the positive side of GSM z')
        rec.ok(np.all(np.abs(M[:, 2] - m) <= 1e-13), f'smz:{tag}', 'SM z is not the dipole axis')
        rec.ok(np.all(np.abs(np.sum(M[:, 1]*Sg, -1)) <= tol), f'smy:{tag}', 'Sun is not in the SM x-z plane')
        rec.ok(np.all(np.sum(M[:, 0]*Sg, -1) > 0), f'smx:{tag}', 'Sun is not in the SM half plane of positive x')
        rec.bulk(2*t.size, sample=(th, ph))
        for i in range(0, t.size, 11):   # alone
            for f, w in ((cu.basevectors_gsm, g), (cu.basevectors_sm, s)):
                one = f(float(t[i]), dipole=dip)
                rec.ok(all(np.allclose(a, b[i], atol=1e-12/off[i]) for a, b in zip(one, w)), f'one:{f.__name__}:{tag}:{i}', 'single time differs from the array')
                rec.bulk(1)
        if 0.01 < th < 179.99:
            v = cu.basevectors_mag(dipole=dip)
            B = ortho(rec, f'mag:{tag}', v)
            rec.ok(np.allclose(B[2], m, atol=1e-13), f'magz:{tag}', 'MAG z is not the dipole axis')
            rec.ok(abs(B[1, 2]) <= 1e-13, f'magy:{tag}', 'MAG y is not perpendicular to the rotation axis')
            rec.ok(B[0] @ np.array([0, 0, 1.]) < 0, f'magx:{tag}', 'MAG x does not point away from the rotation axis')   # meridian through the geographic pole
            rec.bulk(1)


def forms(rec):
    from chaosmagpy import coordinate_utils as cu, basicConfig as cfg
    for th, ph in dipoles('quick'):
        m = unit(th, ph)
        g = -30000.*np.array([m[2], m[0], m[1]])    # g10, g11, h11
        for k, d in {'tuple2': (th, ph), 'list2': [th, ph], 'tuple3': tuple(g), 'list3': list(map(float, g)), 'array': g, 'scaled': g*1e-5,
                     'array2': (np.array(th), np.array(ph)), 'nested': [g], 'rows': np.array([g, g])}.items():
            v = np.asarray(cu.dipole_to_vec(d))
            want = np.array([m, m]) if k == 'rows' else m
            rec.close(f'{k}:{th}:{ph}', v, want, 0, 1e-12, what=f'dipole given as {k}')
            rec.case((k, th, ph))
        with cfg.context('params.dipole', g):
            for f in (lambda **q: cu.basevectors_gsm(10.3, **q), lambda **q: cu.basevectors_sm(10.3, **q), cu.basevectors_mag):
                rec.ok(all(np.allclose(a, b, atol=1e-10) for a, b in zip(f(), f(dipole=(th, ph)))) or th < 0.01, f'config:{th}:{ph}', 'configured and explicit dipole differ')
                rec.case(('config', th, ph, len(rec.keys)))
    # coefficient arrays and angle arrays of different shapes
    for a, b, c in itertools.product(((), (1,), (3,), (2, 1), (2, 3)), repeat=3):
        sh = np.broadcast_shapes(a, b, c)
        g = [ref.lcg(int(np.prod(s)), i+1, *r).reshape(s) for i, (s, r) in enumerate(zip((a, b, c), ((-31000, -29000), (-2000, 3000), (-5000, 5000))))]
        G = [np.broadcast_to(x, sh) for x in g]
        n = np.sqrt(G[0]**2 + G[1]**2 + G[2]**2)
        w = -np.stack([G[1]/n, G[2]/n, G[0]/n], axis=-1)
        for k, d in (('tuple', tuple(g)), ('list', list(g)), ('floats', tuple(float(x) if not np.ndim(x) else x for x in g)), ('array', np.stack(G, axis=-1))):
            rec.close(f'mixed:{k}:{a}{b}{c}', cu.dipole_to_vec(d), w, 0, 1e-12, what=f'coefficients of shapes {a}, {b}, {c} given as {k}')
            rec.case(('mixed', k, a, b, c))
    rec.raises('none', (ValueError, TypeError), cu.dipole_to_vec, (1., 2., 3., 4.), what='four dipole numbers')


def igrf(rec):
    from chaosmagpy import coordinate_utils as cu
    for e in (None, '2015', 2015):
        rec.close(f'2015:{e}', cu.igrf_dipole(e), unit(9.69, 287.37), 0, 3e-4, what='IGRF dipole 2015')
        g = np.array([-29442.0, -1501.0, 4797.1])
        rec.close(f'2015e:{e}', cu.igrf_dipole(e), -np.array([g[1], g[2], g[0]])/np.sqrt(g@g), 0, 1e-12, what='IGRF dipole 2015')
        rec.case(('2015', str(e)))
    for e in ('2010', 2010):
        rec.close(f'2010:{e}', cu.igrf_dipole(e), unit(11.32, 289.59), 0, 1e-12, what='IGRF dipole 2010')
        rec.case(('2010', str(e)))
    for e in ('2000', 2005, '', 'x', 2020):
        rec.raises(f'bad:{e}', ValueError, cu.igrf_dipole, e, what='unsupported epoch')
        rec.case(('bad', str(e)))


def shapes(rec):
    from chaosmagpy import coordinate_utils as cu
    S = [(), (1,), (3,), (2, 1), (2, 3)]
    for a, b, c in itertools.product(S, repeat=3):
        sh = np.broadcast_shapes(a, b, c)
        t = ref.lcg(int(np.prod(a)), 1, -5000, 9000).reshape(a)
        th = ref.lcg(int(np.prod(b)), 2, 5, 30).reshape(b)
        ph = ref.lcg(int(np.prod(c)), 3, -180, 180).reshape(c)
        T, A, B = np.broadcast_arrays(t, th, ph)
        for name, f in (('gsm', cu.basevectors_gsm), ('sm', cu.basevectors_sm)):
            rec.case((name, a, b, c))
            try:
                got = f(t, dipole=(th, ph))
            except Exception as e:
                rec.fail(f'{name}:{a}{b}{c}', f'{name} for times {a}, dipole angles {b}, {c}: {e!r}')
                continue
            want = np.array([f(float(x), dipole=(float(y), float(z))) for x, y, z in zip(T.ravel(), A.ravel(), B.ravel())])
            for i in range(3):
                rec.close(f'{name}:{a}{b}{c}:{i}', got[i], want[:, i].reshape(sh + (3,)), 0, 1e-11, what=f'{name} vector {i+1} for times {a}, dipole angles {b}, {c}')
        try:
            got = cu.basevectors_mag(dipole=(th, ph))
        except Exception as e:
            rec.fail(f'mag:{b}{c}', f'mag for dipole angles {b}, {c}: {e!r}')
            continue
        A, B = np.broadcast_arrays(th, ph)
        want = np.array([cu.basevectors_mag(dipole=(float(y), float(z))) for y, z in zip(A.ravel(), B.ravel())])
        for i in range(3):
            rec.close(f'mag:{b}{c}:{i}', got[i], want[:, i].reshape(A.shape + (3,)), 0, 1e-11, what=f'mag vector {i+1} for dipole angles {b}, {c}')


def use(rec):
    from chaosmagpy import coordinate_utils as cu
    ths = [1e-12, 1e-6, 0.5, 30., 89.999, 90., 137., 179.999999, float(np.nextafter(180., 0))]
    phs = [-720., -180., -90., -1e-9, 0., 33., 90., 180., 359.99, 540.]
    for th, ph in itertools.product(ths, phs):
        v = cu.basevectors_use(th, ph)
        M = ortho(rec, f'use:{th}:{ph}', v)
        t, p = math.radians(th), math.radians(ph)
        want = np.array([unit(th, ph), [math.cos(t)*math.cos(p), math.cos(t)*math.sin(p), -math.sin(t)], [-math.sin(p), math.cos(p), 0]])
        rec.close(f'dir:{th}:{ph}', M, want, 0, 1e-14, what='up, south, east')
        rec.case((th, ph))
    for bad in (0., 180., 0, 180, np.array([0.]), np.array([10., 180.]), np.array([[0., 20.], [30., 40.]]), np.array([180., 0.]), np.array([20., 0., 30.])):
        rec.raises(f'pole:{bad!r}', ValueError, cu.basevectors_use, bad, 10., what='base at a pole')
        rec.case(repr(bad))
    S = [(), (1,), (3,), (2, 1), (2, 3)]
    for a, b in itertools.product(S, repeat=2):
        th, ph = ref.lcg(int(np.prod(a)), 1, 1, 179).reshape(a), ref.lcg(int(np.prod(b)), 2, -180, 180).reshape(b)
        A, B = np.broadcast_arrays(th, ph)
        got = cu.basevectors_use(th, ph)
        want = np.array([cu.basevectors_use(float(x), float(y)) for x, y in zip(A.ravel(), B.ravel())])
        for i in range(3):
            rec.close(f'useshape:{a}{b}:{i}', got[i], want[:, i].reshape(A.shape + (3,)), 0, 1e-14, what=f'shapes {a}, {b}')
        rec.case((a, b))


def many(rec):
    """Long arrays."""
    from chaosmagpy import coordinate_utils as cu
    from mc.large import tiled
    t = np.array([-36000.3, -0.5, 0., 1e-4, -1e-9, 1000.1, 7305.5, 9000.75, 12.1, 3.3, 18000.])
    th, ph = ref.lcg(11, 1, 1, 179), ref.lcg(11, 2, -300, 300)
    for f in (cu.basevectors_gsm, cu.basevectors_sm):
        tiled(rec, f.__name__, lambda x: tuple(f(x)), (t,))
        tiled(rec, f.__name__ + ':d', lambda x, a, b: tuple(f(x, dipole=(a/9, b))), (t, th, ph))
    tiled(rec, 'mag', lambda a, b: tuple(cu.basevectors_mag(dipole=(a, b))), (th, ph))
    tiled(rec, 'use', lambda a, b: tuple(cu.basevectors_use(a, b)), (th, ph))
    for k in (360*300, -360*3000):
        for g, w in zip(cu.basevectors_use(th, ph + k), cu.basevectors_use(th, ph)):
            rec.close(f'turns:{k}', g, w, 0, 1e-9, 'longitude many turns away')
        for g, w in zip(cu.basevectors_mag(dipole=(th, ph + k)), cu.basevectors_mag(dipole=(th, ph))):
            rec.close(f'turnsm:{k}', g, w, 0, 1e-9, 'longitude of the pole many turns away')
        rec.case(('turns', k))
