"""C23: spherical, Cartesian, azimuth and local-time helpers."""
import itertools
import math
from fractions import Fraction
import numpy as np
from mc import ref

PROPERTY, LEVEL = 'C23', 'exploration'
RULE = ('every point of a lattice of radii, colatitudes and longitudes that includes poles, date line, origin and their floating-point '
        'neighbours, all combinations of argument shapes and types; positions against 60-digit arithmetic, azimuths and local times '
        'against exact rational remainders.')
ASSUMPTIONS = []


def nb(x, k=2):
    out = [x]
    a = b = x
    for _ in range(k):
        a, b = float(np.nextafter(a, -1e9)), float(np.nextafter(b, 1e9))
        out += [a, b]
    return out


def tasks(tier):
    t = 37 if tier == 'thorough' else 13
    th = sorted({float(x) for x in np.linspace(0, 180, t)} | {x for c in (0., 90., 180.) for x in nb(c) if 0 <= x <= 180} | {1e-12, 1e-6, 0.01, 179.999999, 54.7356})
    return [('points', dict(thetas=th[i:i+4], n=49 if tier == 'thorough' else 25)) for i in range(0, len(th), 4)] + \
        [('azimuth', dict(n=200 if tier == 'thorough' else 60)), ('localtime', dict(n=60 if tier == 'thorough' else 25)), ('shapes', {}), ('cartesian', {}), ('many', {})]


def points(rec, thetas, n):
    from chaosmagpy import coordinate_utils as cu
    phis = sorted({float(x) for x in np.linspace(-720, 720, n)} | {x for c in (-180., 0., 90., 180., 360.) for x in nb(c)})
    radii = [0., 1e-300, 1e-3, 1., 6371.2, 42164.5, 1e8]
    trig = {p: ref.dcos_dsin(p) for p in phis}
    for th in thetas:
        ct, st = ref.dcos_dsin(th)
        P, T, R = np.array(phis), np.full(len(phis), th), None
        for r in radii:
            xyz = cu.spherical_to_cartesian(r, T, P)
            # the argument in radians is itself rounded: absolute error of a few units in its last place
            ap = np.spacing(np.abs(np.radians(P))) + 3e-16
            for i, p in enumerate(phis):
                want = [float(trig[p][0]*st)*r, float(trig[p][1]*st)*r, float(ct)*r]
                got = [float(c[i]) for c in xyz]
                rec.ok(all(abs(a-b) <= r*(4*ap[i] + 1e-15) for a, b in zip(got, want)), f'xyz:{r}:{th}:{p}', f'({r}, {th}, {p}) -> {got}, expected {want}')
                if i % 5 == 0:
                    one = cu.spherical_to_cartesian(r, th, p)
                    rec.ok(np.allclose(one, got, rtol=0, atol=1e-15*r), f'one:{r}:{th}:{p}', f'alone {one}, in an array {got}')
            rad, theta, phi = cu.cartesian_to_spherical(*xyz)
            rec.ok(np.all((theta >= 0) & (theta <= 180)), f'thrange:{r}:{th}', f'colatitude {theta}')
            rec.ok(np.all((phi >= -180) & (phi <= 180)), f'phrange:{r}:{th}', f'longitude {phi}')
            if r > 1e-100:
                rec.close(f'r:{r}:{th}', rad, np.full(P.shape, r), 4e-16*4, 0, what=f'radius back from ({r}, {th})')
                rec.close(f'th:{r}:{th}', theta, T, 0, 1e-13, what=f'colatitude back from ({r}, {th})')
                if 1e-9 < th < 180 - 1e-9:
                    d = np.abs((phi - P + 180) % 360 - 180)
                    rec.ok(np.all(d <= 1e-12), f'ph:{r}:{th}', f'longitude back from ({r}, {th}): off by {d.max()}')
                again = np.array(cu.spherical_to_cartesian(rad, theta, phi))
                rec.close(f'again:{r}:{th}', again, np.array(xyz), 0, 1e-14*r, what=f'Cartesian there and back ({r}, {th})')
            else:
                rec.ok(np.all(np.isfinite(theta) & np.isfinite(phi)), f'origin:{r}:{th}', 'angles of the origin')
            rec.bulk(2*P.size, sample=(r, th))


def cartesian(rec):
    from chaosmagpy import coordinate_utils as cu
    vals = [0., -0., 1., -1., 2.5, -3.75, 1e-8, 6371.2, -1e5]
    for x, y, z in itertools.product(vals, repeat=3):
        r, th, ph = cu.cartesian_to_spherical(x, y, z)
        R = math.hypot(x, y, z)
        rec.case((x, y, z, math.copysign(1, x), math.copysign(1, y), math.copysign(1, z)))
        rec.ok(abs(r - R) <= 1e-15*R*4, f'r:{x}:{y}:{z}', f'radius of ({x},{y},{z}) = {r}')
        rec.ok(0 <= th <= 180 and -180 <= ph <= 180, f'range:{x}:{y}:{z}', f'angles of ({x},{y},{z}) = {th}, {ph}')
        if R > 0:
            X = np.array(cu.spherical_to_cartesian(r, th, ph))
            rec.ok(np.allclose(X, [x, y, z], rtol=0, atol=1e-15*R*4), f'back:{x}:{y}:{z}', f'({x},{y},{z}) -> {X}')
            rec.ok(abs(th - math.degrees(math.atan2(math.hypot(x, y), z))) <= 1e-13, f'th:{x}:{y}:{z}', f'colatitude of ({x},{y},{z}) = {th}')
        a = [np.array([v, 1.]) for v in (x, y, z)]
        A = [np.asarray(c)[0] for c in cu.cartesian_to_spherical(*a)]
        rec.ok(np.allclose(A, [r, th, ph], rtol=0, atol=1e-13*max(1, R)), f'arr:{x}:{y}:{z}', f'in an array {A}, alone {(r, th, ph)}')


def azimuth(rec, n):
    from chaosmagpy import coordinate_utils as cu
    base = [float(k)*45/4 for k in range(-8*n, 8*n+1)] + [v for c in (-540., -360., -180., 0., 180., 360., 540., 720.) for v in nb(c, 3)] + \
        [s*e for s in (-1, 1) for e in (5e-324, 1e-300, 1e-20, 1e-15, 1e-10)] + [1e6, -1e6, 123456.789, -98765.4321]
    arr = np.array(base)
    got = cu.center_azimuth(arr)
    rec.ok(got.shape == arr.shape, 'shape', 'shape changed')
    for p, g in zip(base, got):
        rec.case(p)
        g = float(g)
        rec.ok(-180 <= g <= 180, f'range:{p!r}', f'center_azimuth({p!r}) = {g!r}')
        d = (Fraction(g) - Fraction(p))/360
        rec.ok(abs(d - round(d)) <= Fraction(1, 10**14) + Fraction(float(np.spacing(abs(p)+360)))/360, f'mult:{p!r}', f'center_azimuth({p!r}) = {g!r}')
        m = Fraction(p) % 360
        if abs(m - 180) > Fraction(1, 10**10) or m == 180:
            rec.ok((g > 0) if 0 < m < 180 and m > Fraction(1, 10**10) else True, f'sign:{p!r}', f'center_azimuth({p!r}) = {g!r}')
            if m == 180:
                rec.ok(g == 180., f'half:{p!r}', f'center_azimuth({p!r}) = {g!r}, the interval is open at -180')
        for t in (float, np.float64, np.array):
            s = cu.center_azimuth(t(p))
            rec.ok(np.shape(s) == () and float(s) == g, f'sc:{p!r}:{t}', f'alone {s!r}, in an array {g!r}')
    ints = np.arange(-1080, 1081)
    g = cu.center_azimuth(ints)
    w = -((-ints + 180) % 360 - 180)
    rec.close('ints', np.asarray(g, float), w.astype(float), 0, 0, what='integer azimuths')
    rec.bulk(ints.size)
    for k in (-190, 0, 180, 181, 360, 540, -180):
        rec.ok(float(cu.center_azimuth(k)) == -((-k + 180) % 360 - 180), f'int:{k}', f'center_azimuth({k}) = {cu.center_azimuth(k)}')
    rec.ok(np.array_equal(arr, np.array(base)), 'mutates', 'argument modified')
    m = arr[:6].reshape(2, 3)
    rec.ok(np.array_equal(cu.center_azimuth(m), got[:6].reshape(2, 3)), '2d', 'two-dimensional input')


def localtime(rec, n):
    from chaosmagpy import coordinate_utils as cu
    phis = sorted({float(x) for x in np.linspace(-360, 360, 4*n+1)} | {v for c in (-180., 0., 180.) for v in nb(c)} | {-1e-18, -1e-14, 1e-14})
    times = sorted({float(k)/8 for k in range(-n, n)} | {8000.25, -3652.5, 12345.678, 1e-17, -1e-17, -1e-20, 0.9999999999999999} | {float(np.nextafter(k, -1e9)) for k in (1, 2, 8000)})
    T, P = np.meshgrid(times, phis)
    got = cu.local_time(T, P)
    rec.ok(got.shape == T.shape, 'shape', 'shape')
    rec.ok(np.all((got >= 0) & (got < 24)), 'range', f'local time outside [0, 24): {got[(got < 0) | (got >= 24)][:3]}')
    for i, p in enumerate(phis):
        for j, t in enumerate(times):
            want = (Fraction(t) + Fraction(p)/360) % 1*24
            d = abs(Fraction(float(got[i, j])) - want)
            rec.ok(min(d, 24-d) <= Fraction(float(np.spacing(abs(t)+1)))*48, f'lt:{t!r}:{p!r}', f'local_time({t!r}, {p!r}) = {got[i, j]!r}, expected {float(want)!r}')
    rec.bulk(T.size, sample=(times[0], phis[0]))
    for p, t in itertools.product(phis[::3], times[::3]):
        s = cu.local_time(t, p)
        rec.ok(0 <= s < 24 and float(s) == got[phis.index(p), times.index(t)], f'sc:{t!r}:{p!r}', f'scalar local_time({t!r}, {p!r}) = {s!r}')
        rec.bulk(1)


def shapes(rec):
    from chaosmagpy import coordinate_utils as cu
    S = [(), (1,), (3,), (2, 1), (2, 3), (1, 3)]
    for a, b, c in itertools.product(S, repeat=3):
        try:
            sh = np.broadcast_shapes(a, b, c)
        except ValueError:
            continue
        r, t, p = ref.lcg(int(np.prod(a)), 1, 1, 9).reshape(a), ref.lcg(int(np.prod(b)), 2, 1, 179).reshape(b), ref.lcg(int(np.prod(c)), 3, -179, 179).reshape(c)
        x = cu.spherical_to_cartesian(r, t, p)
        R, T, P = np.broadcast_arrays(r, t, p)
        w = [R*np.sin(np.radians(T))*np.cos(np.radians(P)), R*np.sin(np.radians(T))*np.sin(np.radians(P)), R*np.cos(np.radians(T))]
        for k in (0, 1):
            rec.close(f'xyz:{a}{b}{c}:{k}', np.broadcast_to(x[k], sh), w[k], 1e-13, 1e-13, what=f'shapes {a}, {b}, {c}')
        rec.close(f'z:{a}{b}{c}', np.broadcast_to(x[2], sh), w[2], 1e-13, 1e-13, what=f'shapes {a}, {b}, {c}')
        q = cu.cartesian_to_spherical(r, t/90-1, p/90)
        X, Y, Z = np.broadcast_arrays(r, t/90-1, p/90)
        for name, g, v in zip(('r', 'theta', 'phi'), q, (np.sqrt(X*X+Y*Y+Z*Z), np.degrees(np.arccos(Z/np.sqrt(X*X+Y*Y+Z*Z))), np.degrees(np.arctan2(Y, X)))):
            rec.close(f'{name}:{a}{b}{c}', np.broadcast_to(g, sh), v, 1e-12, 1e-11, what=f'{name} for shapes {a}, {b}, {c}')
        lt = cu.local_time(r, p)
        rec.ok(np.shape(lt) == np.broadcast_shapes(a, c), f'lt:{a}{c}', f'local time shape {np.shape(lt)}')
        rec.case((a, b, c))
    for r, t, p in ((1, 90, 45), (6371, 0, 0), (2, 180, -90)):
        rec.close(f'int:{r}:{t}:{p}', np.array(cu.spherical_to_cartesian(r, t, p)), np.array(cu.spherical_to_cartesian(float(r), float(t), float(p))), 0, 0, what='integers')
        rec.close(f'list:{r}:{t}:{p}', np.array(cu.spherical_to_cartesian([r], [t], [p])), np.array(cu.spherical_to_cartesian(np.array([r]), np.array([t]), np.array([p]))), 0, 0, what='lists')
        rec.case((r, t, p))
    for x in itertools.product((-2, 0, 3), repeat=3):
        rec.close(f'intc:{x}', np.array(cu.cartesian_to_spherical(*x)), np.array(cu.cartesian_to_spherical(*map(float, x))), 0, 1e-13, what='integers')
        rec.case(x)


def many(rec):
    """Long arrays."""
    from chaosmagpy import coordinate_utils as cu
    from mc.large import tiled
    th = np.array([0., 1e-9, 12.5, 54.7, 90., 91., 133., 179.999, 180., 45., 7.])
    ph = np.array([-180., -90., 0., 33., 180., 359., 720., -500., 12., 90.5, -0.1])
    r = 6371.2 + 100*np.arange(11.)
    t = np.array([-36000.3, -0.5, 0., 0.25, 0.999, 1000.1, 7305.5, 9000.75, 12.1, 3.3, 18000.])
    tiled(rec, 'sph', lambda *a: tuple(cu.spherical_to_cartesian(*a)), (r, th, ph))
    tiled(rec, 'cart', lambda *a: tuple(cu.cartesian_to_spherical(*a)), cu.spherical_to_cartesian(r, th, ph))
    tiled(rec, 'az', cu.center_azimuth, (ph,))
    tiled(rec, 'local', cu.local_time, (t, ph))
    for k, d in itertools.product((0, 2**17, -2**17, 10**6), (0, 360*300, -360*3000)):       # far away in time and after many turns
        want = np.mod(24*np.mod(t, 1.) + ph/15, 24.)
        got = cu.local_time(t + k, ph + d)
        rec.close(f'farlocal:{k}:{d}', np.mod(got - want + 12, 24.), np.full(11, 12.), 0, 1e-6, 'local time')
        rec.ok(bool(np.all((got >= 0) & (got < 24))), f'farrange:{k}:{d}', 'local time outside a day')
        rec.case(('far', k, d))
