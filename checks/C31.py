"""C31: response of a layered conducting sphere."""
import itertools
import math
import numpy as np
from mc import ref

PROPERTY, LEVEL = 'C31', 'exploration'
RULE = ('every layered profile of up to four layers over a set of conductivities and interfaces, degree and period of the stated lattices is compared with an '
        'independent propagation of the induction equation (powers of the radius for quadratic layers, scaled modified Bessel functions for '
        'constant layers); every split of every layer, every rotation and reversal of the period vector, single periods; q_response with every '
        'position of zero frequencies, for the bundled and for rewritten conductivity files.')
ASSUMPTIONS = ['kind "constant" is explored for positive conductivities down to 1e-12 S/m, the value zero is a recorded finding',
               'phi is only claimed to 0.01 % (documented as proportional to the phase)']
MU = 4e-7*math.pi
SIG = (1e-12, 1e-3, 0.5, 40.)
RAD = ((6371.2,), (6371.2, 3480.), (6371.2, 6370.2, 3480.), (6371.2, 5961.2, 5701.2, 3480.), (1737., 400.))
PERIODS = (1., 600., 86400., 2.5e6, 3.2e8, 1e11)


def tasks(tier):
    more = tier == 'thorough'
    out = []
    for kind in ('constant', 'quadratic'):
        for i in range(len(RAD)):
            out.append(('profiles', dict(kind=kind, i=i, more=more)))
        out += [('split', dict(kind=kind)), ('order', dict(kind=kind))]
    return out + [('limits', {}), ('agree', {}), ('qresp', {}), ('findings', {}), ('refuse', {}), ('many', {})]


def oracle(period, sigma, radius, n, kind):
    """C-response in km: C = u/u' at the surface for u = r R(r)."""
    w = 2*math.pi/period*1j*MU
    r = [1e3*float(x) for x in radius]
    N = len(r)
    if kind == 'quadratic':
        y = (0.5 + np.sqrt((n+.5)**2 + w*sigma[-1]*r[-1]**2))/r[-1]
        for k in range(N-2, -1, -1):
            b = np.sqrt((n+.5)**2 + w*sigma[k]*r[k]**2)
            sp, sm = .5 + b, .5 - b
            A = (y*r[k+1] - sm)/(2*b)
            B = 1 - A
            f = np.exp(-2*b*math.log(r[k]/r[k+1]))
            y = (sp*A + sm*B*f)/(A + B*f)/r[k]
        return 1/y/1e3
    from scipy.special import ive, kve
    inv = 0j     # u/u' at the core: perfect conductor
    v = n + .5
    for k in range(N-2, -1, -1):
        q = np.sqrt(w*sigma[k])

        def logder(x):
            """u'/u for the growing and decaying solution at radius x."""
            z = q*x
            di = ive(v+1, z)/ive(v, z) + v/z
            dk = -kve(v+1, z)/kve(v, z) + v/z
            return .5/x + q*di, .5/x + q*dk
        z0, z1 = q*r[k], q*r[k+1]
        i1, k1 = logder(r[k+1])
        i0, k0 = logder(r[k])
        # u = A U + B V with U, V normalised at the bottom; A + B = u, A i1 + B k1 = u'
        A, B = 1 - k1*inv, i1*inv - 1     # times u'/(i1-k1)
        ratio = (kve(v, z0)/kve(v, z1))/(ive(v, z0)/ive(v, z1))*np.exp(-(z0-z1) - (abs(z0.real)-abs(z1.real)))
        inv = (A + B*ratio)/(A*i0 + B*k0*ratio)
    return inv/1e3


def derived(C, period, radius, n):
    C = np.asarray(C)
    rho = MU*2*np.pi/np.asarray(period)*np.abs(C*1e3)**2
    phi = 90 + np.degrees(np.angle(C))
    Q = n/(n+1)*(1 - (n+1)*C/radius[0])/(1 + n*C/radius[0])
    return rho, phi, Q


def compare(rec, tag, periods, sigma, radius, n, kind, rtol=1e-7):
    from chaosmagpy import coordinate_utils as cu
    P, S, R = np.array(periods, float), np.array(sigma, float), np.array(radius, float)
    keep = P.copy(), S.copy(), R.copy()
    C, rho, phi, Q = cu.q_response_1D(P, S, R, n, kind=kind)
    want = np.array([oracle(p, sigma, radius, n, kind) for p in periods])
    rec.case(tag)
    rec.close(f'C:{tag}', C, want, rtol, 1e-9, what='C-response (km)')
    r, f, q = derived(want, periods, radius, n)
    rec.close(f'rho:{tag}', np.abs(rho), r, 3*rtol, 1e-12, what='surface resistance')
    i = np.abs(want) > 1e-3
    rec.close(f'phi:{tag}', np.asarray(phi)[i], f[i], 0, 0.02, what='phase')
    rec.close(f'Q:{tag}', Q, q, rtol, 1e-7, what='Q-response')
    rec.ok(all(np.array_equal(a, b) for a, b in zip(keep, (P, S, R))), f'mutate:{tag}', 'arguments modified')
    return C


def profiles(rec, kind, i, more):
    radius = RAD[i]
    sig = SIG if not more else SIG + (1e-6, 5e5)
    if kind == 'quadratic':
        sig = sig + (0.,)
    for sigma in itertools.product(sig, repeat=len(radius)):
        if kind == 'constant' and sigma[-1] != sig[-1]:
            continue       # the core conductivity is not used
        for n in ((1, 2, 3) if not more else (1, 2, 3, 4, 6, 8)):
            compare(rec, f'{kind}:{i}:{sigma}:{n}', PERIODS, sigma, radius, n, kind, 1e-6)


def split(rec, kind):
    """Any layer cut into identical material changes nothing."""
    from chaosmagpy import coordinate_utils as cu
    P = np.array(PERIODS)
    for radius in RAD[1:]:
        for sigma in itertools.product((1e-3, 0.5, 40.), repeat=len(radius)):
            for n in (1, 2, 3):
                C = cu.q_response_1D(P, np.array(sigma), np.array(radius), n, kind=kind)[0]
                for k in range(len(radius)-1):
                    for parts in ((.5,), (.01,), (.99,), (.3, .6), (.2, .4, .7)):
                        cuts = [radius[k] + (radius[k+1]-radius[k])*x for x in parts]
                        s = [sigma[k]*(1 if kind == 'constant' else (radius[k]/c)**2) for c in cuts]
                        R = np.array(list(radius[:k+1]) + cuts + list(radius[k+1:]))
                        S = np.array(list(sigma[:k+1]) + s + list(sigma[k+1:]))
                        tag = f'{kind}:{radius}:{sigma}:{n}:{k}:{parts}'
                        D = cu.q_response_1D(P, S, R, n, kind=kind)[0]
                        rec.case(tag)
                        rec.close(f'split:{tag}', D, C, 1e-6, 1e-8, what='C-response after splitting a layer')


def order(rec, kind):
    from chaosmagpy import coordinate_utils as cu
    P = np.array(PERIODS)
    for radius, n in itertools.product(RAD, (1, 2, 4)):
        S, R = np.array(SIG[::-1][:len(radius)]), np.array(radius)
        base = cu.q_response_1D(P, S, R, n, kind=kind)
        for i in range(len(P)):
            for p in (np.roll(np.arange(len(P)), i), np.roll(np.arange(len(P)), i)[::-1], np.array([i]), np.array([i, i, 0])):
                rec.case((kind, radius, n, p.tolist()))
                for a, b, name in zip(cu.q_response_1D(P[p], S, R, n, kind=kind), base, ('C', 'rho', 'phi', 'Q')):
                    rec.close(f'{name}:{kind}:{radius}:{n}:{p}', a, b[p], 1e-13, 0, what=f'{name} after reordering the periods')
            one = cu.q_response_1D(float(P[i]), S, R, n, kind=kind)
            rec.ok(all(np.size(x) == 1 for x in one), f'float:{kind}:{radius}:{n}:{i}', 'single period as float')
            rec.close(f'floatv:{kind}:{radius}:{n}:{i}', np.ravel(one[0]), base[0][[i]], 1e-13, 0, what='single period as float')
            lst = cu.q_response_1D([int(P[i])], S.tolist(), R, n, kind=kind)
            rec.close(f'list:{kind}:{radius}:{n}:{i}', lst[0], cu.q_response_1D(np.array([float(int(P[i]))]), S, R, n, kind=kind)[0], 1e-13, 0, what='lists')
        rec.ok(cu.q_response_1D(P[:0], S, R, n, kind=kind)[0].shape == (0,), f'empty:{kind}:{radius}:{n}', 'empty period vector')


def limits(rec):
    """Analytic solutions."""
    from chaosmagpy import coordinate_utils as cu
    P = np.array(PERIODS)
    a, c = 6371.2, 3480.
    for n in (1, 2, 3, 5):
        # insulating mantle over a perfect conductor: Q = n/(n+1) (c/a)^(2n+1)
        want = n/(n+1)*(c/a)**(2*n+1)
        for kind, s in (('constant', (1e-14, 1.)), ('quadratic', (0., 1e16))):
            Q = cu.q_response_1D(P[:4], np.array(s), np.array([a, c]), n, kind=kind)[3]
            rec.close(f'core:{kind}:{n}', Q, np.full(4, want, complex), 3e-5, 1e-9, what='insulating shell over a perfect conductor')
            rec.case(('core', kind, n))
        # bare perfect conductor, insulator
        Q = cu.q_response_1D(P, np.array([1.]), np.array([a]), n, kind='constant')[3]
        rec.close(f'bare:{n}', Q, np.full(P.shape, n/(n+1), complex), 1e-12, 0, what='perfect conductor')
        Q = cu.q_response_1D(P, np.array([0., 0., 0.]), np.array([a, 5000., c]), n, kind='quadratic')[3]
        rec.close(f'none:{n}', Q, np.zeros(P.shape, complex), 0, 1e-12, what='insulating sphere')
        # homogeneous sphere with constant conductivity (core too small to matter)
        for s in (1e-3, 1., 50.):
            C = cu.q_response_1D(P[1:], np.array([s, s]), np.array([a, 1.]), n, kind='constant')[0]
            from scipy.special import ive
            z = np.sqrt(2j*np.pi/P[1:]*MU*s)*a*1e3
            want = a/(1 + n + z*ive(n+1.5, z)/ive(n+.5, z))
            ok = np.abs(z)*1e0 < np.inf
            rec.close(f'sphere:{s}:{n}', C[ok], want[ok], 1e-6 if n > 1 else 1e-5, 1e-9, what='homogeneous sphere')
            rec.case(('sphere', s, n))
            # flat-Earth limit: short periods
            C = cu.q_response_1D(np.array([1e-3]), np.array([s, s]), np.array([a, c]), n, kind='constant')[0]
            D = cu.q_response_1D(np.array([1e-3]), np.array([s, s]), np.array([a, c]), n, kind='quadratic')[0]
            flat = 1/np.sqrt(2j*np.pi/1e-3*MU*s)/1e3
            rec.close(f'flat:{s}:{n}', C[0], flat, 1e-3, 0, what='half-space limit, constant')
            rec.close(f'flatq:{s}:{n}', D[0], flat, 1e-3, 0, what='half-space limit, quadratic')


def agree(rec):
    """Both kinds describe the same Earth when the layers are thin: error falls with the thickness."""
    from chaosmagpy import coordinate_utils as cu
    P = np.array([600., 86400., 2.5e6])
    for n in (1, 2, 3):
        for s in ((1e-3, 0.5, 0.), (0.5, 40., 0.), (3., 1e-3, 0.)):
            err = []
            for m in (20, 80):
                R, S = [], []
                for a, b, x in ((6371.2, 5701.2, s[0]), (5701.2, 3480., s[1])):
                    R += np.linspace(a, b, m, endpoint=False).tolist()
                    S += [x]*m
                R, S = np.array(R + [3480.]), np.array(S + [1e14])
                C = cu.q_response_1D(P, S, R, n, kind='constant')[0]
                mid = np.append((R[:-1] + R[1:])/2, R[-1])
                D = cu.q_response_1D(P, S*(mid/R)**2, R, n, kind='quadratic')[0]
                err.append(np.max(np.abs(C-D)/np.abs(C)))
                rec.case((n, s, m))
            rec.ok(err[1] < 2e-3 and err[1] < err[0]/2 + 3e-5, f'agree:{n}:{s}', f'relative differences {err} with 20 and 80 sublayers')


def qresp(rec):
    import chaosmagpy as cp
    from chaosmagpy import coordinate_utils as cu
    files = [(cp.basicConfig['file.Earth_conductivity'], None)]
    for j, rows in enumerate((((0., 7.), (1., 1e-4), (400., .01), (670., 1.), (2891., 1e5)), ((0., .3), (2891.2, 5e5)), ((0, 1), (100, 2), (200, 3)))):
        p = rec.tmp(f'c{j}.dat')
        with open(p, 'w') as f:
            f.write('# depth sigma\n' + ''.join(f'{a!r} {b!r}\n' for a, b in rows))
        files.append((p, rows))
    fr = [1/3600, 1/86400, 3e-8]
    slow = [1e-10, 1e-12, 3e-16]
    vectors = []
    for k in range(4):
        for pos in itertools.combinations_with_replacement(range(4), k):
            v = list(fr)
            for q in reversed(pos):
                v.insert(q, 0.)
            vectors.append(v)
    vectors += [[], [0.], [0., 0.], fr[::-1], [fr[1]], slow, [0.] + slow, [slow[0]], [slow[2]]]
    for path, rows in files:
        cp.basicConfig['file.Earth_conductivity'] = path
        tab = np.loadtxt(path) if rows is None else np.array(rows, float)
        table = {(f, n): derived(oracle(1/f, tab[:, 1], 6371.2-tab[:, 0], n, 'quadratic'), 1/f, 6371.2-tab[:, 0], n)[2] for f in fr + slow for n in range(1, 6)}
        for v in vectors:
            for nmax in (1, 2, 5):
                q = cu.q_response(np.array(v), nmax)
                want = np.array([[table[f, n] if f else 0. for f in v] for n in range(1, nmax+1)], complex).reshape(nmax, len(v))
                rec.close(f'q:{path[-8:]}:{v}:{nmax}', q, want, 1e-8, 1e-12, what='Q-response table')
                rec.case((path[-8:], tuple(v), nmax))


def findings(rec):
    from chaosmagpy import coordinate_utils as cu
    rho = cu.q_response_1D(np.array([86400.]), np.array([1., 2.]), np.array([6371.2, 3480.]), 1, kind='quadratic')[1]
    rec.ok(not np.any(np.imag(rho)), 'rho_a:quadratic:imaginary', 'surface resistance is not a real number')
    Q = cu.q_response_1D(np.array([86400.]), np.array([0., 2.]), np.array([6371.2, 3480.]), 1, kind='constant')[3]
    rec.ok(np.all(np.abs(Q - .5*(3480/6371.2)**3) < 1e-6), 'constant:sigma=0', f'insulating shell gives {Q}')
    rec.case('findings')


def refuse(rec):
    from chaosmagpy import coordinate_utils as cu
    r = np.array([6371.2, 3480.])
    rec.raises('kind', ValueError, cu.q_response_1D, np.array([1.]), np.ones(2), r, 1, kind='linear', what='unknown kind')
    rec.raises('periods2d', ValueError, cu.q_response_1D, np.ones((2, 2)), np.ones(2), r, 1, what='two-dimensional periods')
    rec.raises('sigma2d', ValueError, cu.q_response_1D, np.ones(2), np.ones((2, 2)), r, 1, what='two-dimensional conductivity')
    a = cu.q_response_1D(np.array([600.]), np.ones(2), r, 1)
    b = cu.q_response_1D(np.array([600.]), np.ones(2), r, 1, kind='quadratic')
    rec.ok(all(np.array_equal(x, y) for x, y in zip(a, b)), 'default', 'default kind is not quadratic')
    rec.case('refuse')


def many(rec):
    """Many periods, frequencies and layers."""
    from chaosmagpy import coordinate_utils as cu
    from mc.large import tiled
    T = np.array([1e3, 3.3e4, 8.64e4, 1e6, 2.7e6, 3e7, 9e8, 5e3, 77., 4e5, 1.1e5])
    sig, rad = np.array([1e-3, 0.5, 0.01, 2., 10.]), np.array([6371.2, 6300., 5700., 5000., 3485.])
    for n, kind in itertools.product((1, 3), ('constant', 'quadratic')):
        tiled(rec, f'periods:{n}:{kind}', lambda x: tuple(cu.q_response_1D(x, sig, rad, n, kind=kind)), (T,), sizes=(1001, 4097), tol=1e-11, axis=-1)
    f = np.append(0., 1/T)
    tiled(rec, 'freq', lambda x: cu.q_response(x, 3), (f,), sizes=(1001, 4097), tol=1e-11, axis=-1)
    # many identical layers are one layer
    one = cu.q_response_1D(T, np.array([0.3, 5.]), np.array([6371.2, 4000.]), 2, kind='constant')
    for k in (60, 130, 257, 600):
        r = np.append(np.linspace(6371.2, 4000., k, endpoint=False), 4000.)
        got = cu.q_response_1D(T, np.append(np.full(k, 0.3), 5.), r, 2, kind='constant')
        for i in range(4):
            rec.close(f'layers:{k}:{i}', got[i], one[i], 1e-8, 1e-9, what=f'result {i} for {k} identical layers')
        rec.case(('layers', k))
