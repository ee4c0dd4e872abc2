"""C28: Fourier spectra of the frame rotation matrices."""
import itertools
import numpy as np
from mc import ref

PROPERTY, LEVEL = 'C28', 'exploration'
RULE = ('every combination of (number of samples odd/even incl. 1 and 2, sample spacing, start date, frame name, scaling, degrees) of the '
        'stated sets: synthesis with all components is compared with the rotation matrices at every sampled time; every filter length from '
        'one to all components is compared with the sorted list of amplitudes; a distinct response per coefficient and frequency is used '
        'for the induced part; every leading time shape and both layouts of the frequencies.')
ASSUMPTIONS = ['rotation matrices and base vectors themselves are decided by C25 and C27']

NS = (1, 2, 3, 4, 5, 8, 9, 24, 25)
STEPS = (1., 0.5, 7., 24.)
STARTS = (0., -3652.25, 7000.3)
DEG = ((1, 1), (2, 2), (2, 1), (1, 2))


def tasks(tier):
    more = tier == 'thorough'
    out = [('resynth', dict(ref_=r, start=s, more=more)) for r in ('gsm', 'sm') for s in STARTS]
    out += [('filters', dict(N=n)) for n in ((1, 2, 5, 8) if not more else (1, 2, 3, 4, 5, 8, 9, 12, 13, 24))]
    out += [('induced', dict(ref_=r)) for r in ('gsm', 'sm')]
    out += [('saved', {}), ('slow', {}), ('several', {}), ('shapes', {}), ('dipole', {}), ('bundled', {}), ('defaults', {}), ('refuse', {})]
    return out


def matrices(t, frame, nmax, kmax, dipole=None):
    from chaosmagpy import coordinate_utils as cu
    f = cu.basevectors_gsm if frame == 'gsm' else cu.basevectors_sm
    return cu.rotate_gauss(nmax, kmax, *f(t, dipole=dipole))


def unit(freq, k):
    return np.ones(freq.shape)


def coloured(freq, k):
    """Different for every coefficient and frequency, also at frequency zero."""
    return (0.7 + 0.1*k + 1e4*freq)*np.exp(1j*(0.3*k + 2e4*freq))


def resynth(rec, ref_, start, more):
    from chaosmagpy import coordinate_utils as cu
    ns = NS if not more else tuple(range(1, 26)) + (48, 49, 100, 101)
    deg = DEG if not more else DEG + ((3, 3), (3, 1))
    for N, step, scaled, (nmax, kmax) in itertools.product(ns, STEPS, (False, True, None), deg):
        if nmax + kmax > 3 and (N > 9 or step == 0.5) and not more:
            continue
        t = start + np.arange(N)*step/24
        f, s, fi, si = cu.rotate_gauss_fft(nmax, kmax, qfunc=unit, step=step, N=N, reference=ref_, scaled=scaled, start_date=start)
        tag = f'{ref_}:{start}:{N}:{step}:{scaled}:{nmax}:{kmax}'
        rec.case(tag, nontrivial=N > 1)
        shape = (N//2+1, nmax*(nmax+2), kmax*(kmax+2))
        if not rec.ok(f.shape == s.shape == fi.shape == si.shape == shape, f'shape:{tag}', f'shapes {f.shape} {s.shape}'):
            continue
        rec.ok(np.all(f >= 0) and np.all(np.isfinite(s)), f'freq:{tag}', 'negative frequency or non-finite spectrum')
        want = np.sort(np.arange(N//2+1)/N/(step/24))
        rec.close(f'freqset:{tag}', np.sort(f, axis=0), np.broadcast_to(want[:, None, None], shape), 1e-12, 1e-14, what='set of frequencies per day')
        M = matrices(t, ref_, nmax, kmax)
        rec.close(f'M:{tag}', cu.synth_rotate_gauss(t, f, s, scaled=scaled), M, 0, 1e-9, what='resynthesised matrices')
        rec.close(f'I:{tag}', cu.synth_rotate_gauss(t, fi, si, scaled=scaled), M, 0, 1e-9, what='induced matrices of unit response')


def by_frequency(f, s, N, step):
    """Full spectrum array [frequency index, k, l]."""
    out = np.full(f.shape, np.nan, complex)
    i = np.rint(f*N*step/24).astype(int)
    np.put_along_axis(out, i, s, axis=0)
    return out


def filters(rec, N):
    from chaosmagpy import coordinate_utils as cu
    for frame, scaled, start, q in itertools.product(('GSM', 'sm'), (False, True), (0., 1234.5), (unit, coloured)):
        kw = dict(qfunc=q, step=3., N=N, reference=frame, scaled=scaled, start_date=start)
        F = cu.rotate_gauss_fft(2, 1, **kw)
        for length in range(1, N//2+2):
            G = cu.rotate_gauss_fft(2, 1, filter=length, **kw)
            for (f, s, name), (g, h) in zip(((F[0], F[1], 'ext'), (F[2], F[3], 'ind')), (G[:2], G[2:])):
                tag = f'{N}:{frame}:{scaled}:{start}:{length}:{name}:{q.__name__}'
                rec.case(tag, nontrivial=length < N//2+1)
                if not rec.ok(g.shape == h.shape == (length, 8, 3), f'shape:{tag}', f'shapes {g.shape}'):
                    continue
                full = by_frequency(f, s, N, 3.)
                one = np.where((np.arange(N//2+1) == 0)[:, None, None] | (not scaled), 1., .5)
                amp = np.sort(np.abs(full*one), axis=0)[::-1]
                w = np.where((g == 0) | (not scaled), 1., .5)
                rec.close(f'largest:{tag}', np.sort(np.abs(h*w), axis=0)[::-1], amp[:length], 1e-12, 1e-14, what='amplitudes kept')
                i = np.rint(g*N*3/24).astype(int)
                rec.close(f'pairs:{tag}', h, np.take_along_axis(full, i, axis=0), 0, 1e-13, what='component belonging to its frequency')
                rec.ok(all(len(set(c)) == length for c in i.reshape(length, -1).T), f'twice:{tag}', 'a frequency occurs twice')


def induced(rec, ref_):
    from chaosmagpy import coordinate_utils as cu
    seen = []

    def q(freq, k):
        seen.append((int(k), np.array(freq)))
        return coloured(freq, k)
    for N, step, scaled, start, (nmax, kmax) in itertools.product((1, 2, 7, 8), (1., 5.), (False, True), (0., -77.7), DEG):
        del seen[:]
        f, s, fi, si = cu.rotate_gauss_fft(nmax, kmax, qfunc=q, step=step, N=N, reference=ref_, scaled=scaled, start_date=start)
        tag = f'{ref_}:{N}:{step}:{scaled}:{start}:{nmax}:{kmax}'
        hz = np.arange(N//2+1)/N/(step*3600)
        rec.case(tag)
        rec.ok(all(np.allclose(a, hz, rtol=1e-12, atol=0) for _, a in seen) and {k for k, _ in seen} == set(range(nmax*(nmax+2))),
               f'call:{tag}', 'response not requested in Hz for every coefficient')
        resp = np.array([coloured(hz, k) for k in range(nmax*(nmax+2))]).T[..., None]
        rec.close(f'ind:{tag}', by_frequency(fi, si, N, step), resp*by_frequency(f, s, N, step), 1e-11, 1e-13, what='induced spectrum')
    # default response: one-dimensional response of the configured conductivity, by degree
    import chaosmagpy as cp
    sig = np.loadtxt(cp.basicConfig['file.Earth_conductivity'])
    for N, (nmax, kmax) in itertools.product((6, 7), ((2, 2), (3, 1), (1, 3), (4, 4), (5, 5))):
        f, s, fi, si = cu.rotate_gauss_fft(nmax, kmax, step=4., N=N, reference=ref_)
        hz = np.arange(N//2+1)/N/(4*3600)
        deg = [n for n, _, _ in ref.nm_list(1, nmax)]
        resp = np.zeros((N//2+1, len(deg), 1), complex)
        for j, n in enumerate(deg):
            resp[1:, j, 0] = cu.q_response_1D(1/hz[1:], sig[:, 1], 6371.2 - sig[:, 0], n)[3]
        rec.close(f'def:{ref_}:{N}:{nmax}:{kmax}', by_frequency(fi, si, N, 4.), resp*by_frequency(f, s, N, 4.), 1e-11, 1e-13, what='default response')
        rec.case((ref_, N, nmax, kmax, 'default'))


def saved(rec):
    from chaosmagpy import coordinate_utils as cu
    import os
    for i, (frame, scaled, N, flt, start, ext) in enumerate(itertools.product(('gsm', 'sm'), (False, True, None), (6, 7), (None, 2), (None, 0., 4000.25), ('', '.npz'))):
        path = rec.tmp(f's{i}{ext}')
        out = cu.rotate_gauss_fft(2, 2, qfunc=coloured, step=2., N=N, filter=flt, reference=frame, scaled=scaled, start_date=start, save_to=path)
        tag = f'{frame}:{scaled}:{N}:{flt}:{start}:{ext}'
        rec.case(tag)
        real = path if ext else path + '.npz'
        if not rec.ok(os.path.exists(real), f'file:{tag}', 'no file written'):
            continue
        with np.load(real) as z:
            for key, a in zip(('frequency', 'spectrum', 'frequency_ind', 'spectrum_ind'), out):
                rec.ok(np.array_equal(z[key], a), f'{key}:{tag}', f'saved {key} differs')
            import chaosmagpy as cp
            rec.ok(np.array_equal(z['dipole'], cp.basicConfig['params.dipole']) and float(z['step']) == 2. and int(z['N']) == N
                   and bool(z['scaled']) == bool(scaled) and float(z['start_date']) == (start or 0.) and str(z['reference']).lower() == frame,
                   f'meta:{tag}', 'saved parameters differ')
            t = (start or 0.) + np.arange(N)*2/24
            rec.close(f'synth:{tag}', cu.synth_rotate_gauss(t, z['frequency'], z['spectrum'], scaled=z['scaled']),
                      cu.synth_rotate_gauss(t, out[0], out[1], scaled=scaled), 0, 0, what='synthesis from the file')
            if flt is None:
                rec.close(f'orig:{tag}', cu.synth_rotate_gauss(t, z['frequency'], z['spectrum'], scaled=z['scaled']),
                          matrices(t, frame, 2, 2), 0, 1e-9, what='matrices from the file')
    d = rec.tmp()
    before = os.listdir(d)
    os.chdir(d)
    cu.rotate_gauss_fft(1, 1, qfunc=unit, step=2., N=4)
    cu.rotate_gauss_fft(1, 1, qfunc=unit, step=2., N=4, save_to=False)
    rec.ok(os.listdir(d) == before, 'nofile', 'a file was written although none was requested')


def slow(rec):
    """Components of any non-zero frequency, however small, have their mirror."""
    from chaosmagpy import coordinate_utils as cu
    for e in (1e-3, 1e-5, 1e-7, 1e-9, 1e-12):
        f = np.array([0., e, 3*e, 1.])
        s = (ref.lcg(4*3*3, 4) + 1j*ref.lcg(4*3*3, 5)).reshape(4, 3, 3)
        s[0] = s[0].real
        for scaled, t, own in itertools.product((False, True, None), (0., 0.3, 1e4, -7e8), (False, True)):
            g = np.broadcast_to(f[:, None, None], s.shape).copy() if own else f
            w = np.where((f == 0) | (scaled is True), 1., 2.)[:, None, None]
            want = np.sum(w*np.real(s*np.exp(2j*np.pi*f*t)[:, None, None]), axis=0)
            rec.close(f'slow:{e}:{scaled}:{t}:{own}', cu.synth_rotate_gauss(np.array([t]), g, s, scaled=scaled)[0], want, 0, 1e-5 if abs(t) > 1e5 else 1e-9, what='sum over slow components')
            rec.case((e, str(scaled), t, own))
    # a series so slowly sampled that all its frequencies are small
    for step in (24*400., 24*900.):
        N = 9
        t = -3000. + np.arange(N)*step/24
        f, s, fi, si = cu.rotate_gauss_fft(1, 1, qfunc=unit, step=step, N=N, reference='sm', start_date=-3000.)
        rec.close(f'long:{step}', cu.synth_rotate_gauss(t, f, s), matrices(t, 'sm', 1, 1), 0, 1e-9, what='resynthesised matrices')


def shapes(rec):
    from chaosmagpy import coordinate_utils as cu
    N, step = 9, 2.
    f, s, _, _ = cu.rotate_gauss_fft(2, 1, qfunc=unit, step=step, N=N, scaled=False)
    full = by_frequency(f, s, N, step)
    common = np.arange(N//2+1)/N/(step/24)
    for scaled in (False, True, None):
        for sh in ((), (1,), (4,), (2, 3), (2, 1, 2), (0,)):
            t = (np.arange(int(np.prod(sh)))*0.37 - 1.1).reshape(sh)
            keep = t.copy(), f.copy(), s.copy(), common.copy()
            R = cu.synth_rotate_gauss(t, f, s, scaled=scaled)
            C = cu.synth_rotate_gauss(t, common, full, scaled=scaled)
            tag = f'{scaled}:{sh}'
            rec.case(tag)
            rec.ok(R.shape == C.shape == sh + (8, 3), f'shape:{tag}', f'shapes {R.shape} {C.shape}')
            rec.close(f'common:{tag}', C, R, 0, 1e-13, what='common frequency vector')
            for i in np.ndindex(*sh):
                w = np.where((f == 0) | (scaled is True), 1., 2.)
                ph = 2*np.pi*f*t[i]
                rec.close(f'def:{tag}:{i}', R[i], np.sum(w*(s.real*np.cos(ph) - s.imag*np.sin(ph)), axis=0), 0, 1e-13, what='definition')
            rec.ok(all(np.array_equal(a, b) for a, b in zip(keep, (t, f, s, common))), f'mutate:{tag}', 'arguments modified')


def dipole(rec):
    """The configured dipole is the one used and recorded."""
    import chaosmagpy as cp
    from chaosmagpy import coordinate_utils as cu
    for d in ([-29442., -1501., 4797.1], [-30000., 0., 0.], [100., -20000., 30000.]):
        for frame in ('gsm', 'sm'):
            cp.basicConfig['params.dipole'] = d
            p = rec.tmp('x.npz')
            f, s, _, _ = cu.rotate_gauss_fft(1, 2, qfunc=unit, step=5., N=6, reference=frame, save_to=p, start_date=10.)
            t = 10 + np.arange(6)*5/24
            rec.close(f'M:{d}:{frame}', cu.synth_rotate_gauss(t, f, s), matrices(t, frame, 1, 2, dipole=np.array(d)), 0, 1e-9, what=f'matrices for dipole {d}')
            with np.load(p) as z:
                rec.ok(np.array_equal(z['dipole'], d), f'saved:{d}:{frame}', f'file says dipole {z["dipole"]}')
            rec.case((d, frame))


def bundled(rec):
    """The spectra shipped with the package approximate the matrices of the configured dipole."""
    import chaosmagpy as cp
    t = np.arange(0, 2922, 0.7371)
    for frame in ('gsm', 'sm'):
        z = np.load(cp.basicConfig[f'file.{frame.upper()}_spectrum'])
        from chaosmagpy import coordinate_utils as cu
        R = cu.synth_rotate_gauss(t, z['frequency'], z['spectrum'], scaled=z['scaled'])
        M = matrices(t, frame, 2, 2)
        rms = np.sqrt(np.mean((R-M)**2, axis=0))
        rec.ok(rms.max() < 0.03, f'rms:{frame}', f'bundled spectrum deviates from the matrices by {rms.max()}')
        rec.case((frame, 'bundled'))


def defaults(rec):
    """Omitted options take the documented defaults (gsm, one hour, start 2000, not scaled)."""
    from chaosmagpy import coordinate_utils as cu
    a = cu.rotate_gauss_fft(1, 1, qfunc=unit, N=5)
    for i, kw in enumerate((dict(reference='gsm'), dict(step=1.), dict(start_date=0.), dict(scaled=False), dict(filter=3), dict(filter=3.0), dict(reference='GSM'))):
        b = cu.rotate_gauss_fft(1, 1, qfunc=unit, **{**dict(N=5.), **kw})
        rec.ok(all(np.array_equal(x, y) for x, y in zip(a, b)), f'default:{i}', f'explicit {kw} differs from the default')
        rec.case((i, 'default'))


def refuse(rec):
    from chaosmagpy import coordinate_utils as cu
    for bad in ('geo', 'mag', 'xyz', ''):
        rec.raises(f'ref:{bad}', ValueError, cu.rotate_gauss_fft, 1, 1, qfunc=unit, N=4, reference=bad, what=f'reference {bad!r}')
        rec.case(('refuse', bad))


def several(rec):
    """The same times alone, in deep arrays, repeated, in other orders, as integers and in long arrays; sizes of the matrices."""
    from chaosmagpy import coordinate_utils as cu
    from mc.large import tiled
    t = np.array([-300.5, 0.25, 120., 385., 33.3, -100., 200.2, 1e4, -2e5, 0., 1.])
    for n, k, nf, scaled in itertools.product((3, 8), (3, 15), (1, 4), (True, False)):
        f = np.array([0., 0.0027, 1., 1.0027, 2.])[-nf:] if nf < 4 else np.array([0., 0.0027, 1., 2.])
        s = (ref.lcg(nf*n*k, 4) + 1j*ref.lcg(nf*n*k, 5)).reshape(nf, n, k)
        g = lambda x: cu.synth_rotate_gauss(np.asarray(x), f, s, scaled=scaled)
        tiled(rec, f'synth:{n}:{k}:{nf}:{scaled}', g, (t,), sizes=(1001,), tol=1e-9)
        w = np.where((f == 0) | scaled, 1., 2.)
        want = np.array([np.sum((w*np.exp(2j*np.pi*f*x))[:, None, None]*s, axis=0).real for x in t])
        rec.close(f'sum:{n}:{k}:{nf}:{scaled}', g(t), want, 0, 1e-8, 'sum over the components')
    for c in (1e-9, 2**20, 1e9):
        s = (ref.lcg(2*9, 4) + 1j*ref.lcg(2*9, 5)).reshape(2, 3, 3)
        rec.close(f'scale:{c}', cu.synth_rotate_gauss(t, np.array([0., 1.]), c*s)/c, cu.synth_rotate_gauss(t, np.array([0., 1.]), s), 0, 1e-11, 'scaled spectrum')
        rec.case(('scale', c))
