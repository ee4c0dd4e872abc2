"""C15: MAT files round-trip complete and partial CHAOS models."""
import itertools
import os
import shutil
import numpy as np
from mc import ref, fixture

PROPERTY, LEVEL = 'C15', 'exploration'
RULE = ('all 16 subsets of the optional parts with the time-dependent part, every ordered pair of them saved one over the other, every history of three (thorough: four) single polynomials saved to three places of one file, spline orders, pieces, degrees, numbers of '
        'satellites, Euler, offset and calibration bins, pre-rotation layouts and satellite name lists up to the bound: attributes, file contents (read with h5py) '
        'and answers of the loaded model compared with the saved one; the MAT-file shipped with the documentation against an independent reading')
ASSUMPTIONS = ['only models the format can hold: time-dependent part present, GSM and SM parts together, axial GSM coefficients, common breaks of q11 and s11, one calibrated satellite']
OPT = ('static', 'ext', 'euler', 'cal')
NAMES = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c', 'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']
T = np.array([-480., -100., -99.5, 0.25, 120., 389., 700.])


def tasks(tier):
    deep = tier == 'thorough'
    out = [('partial', dict(part=i, of=4)) for i in range(4)]
    out += [('overwrite', dict(part=i, of=8, deep=deep)) for i in range(8)]
    out += [('sizes', dict(order=k)) for k in range(1, 7)] + [('sats', dict(n=n, deep=deep)) for n in range(1, 5)]
    out += [('offsets', {}), ('documentation', {}), ('many', {})]
    out += [('places', dict(first=i, deep=deep)) for i in range(9)]
    return out


def subsets():
    return [c for n in range(5) for c in itertools.combinations(OPT, n)]


def kwargs(opt=OPT, sats=fixture.SATS, bins=(2, 1, 3), delta=(3, 2), cal=2, pre='array', pieces=2, seed=1, **kw):
    parts = ['tdep'] + [y for x in opt for y in (('gsm', 'sm') if x == 'ext' else (x,))]
    k = fixture.kwargs(parts, sats=sats, bins=bins, seed=seed, **kw)
    if pieces != 2:
        k['breaks'] = -500. + 300.*np.arange(pieces+1)
        c = k['coeffs_tdep']
        k['coeffs_tdep'] = c[:, np.arange(pieces) % 2]*(1 + np.arange(pieces)[:, None]/4)
    if 'ext' in opt:
        a, b = (np.linspace(-490., 395., n+1) for n in delta)
        k['breaks_delta'] = {'q10': a, 'q11': b, 's11': b.copy()}
        k['coeffs_delta'] = {q: ref.lcg(len(x)-1, seed+3+i, -9, 9).reshape(1, -1) for i, (q, x) in enumerate(k['breaks_delta'].items())}
    if 'cal' in opt:
        k['breaks_cal'] = {'cryosat-2_1': -300. + 50.*np.arange(cal+1)}
        k['coeffs_cal'] = {'cryosat-2_1': ref.lcg(9*cal, seed+10, -2, 2).reshape(1, cal, 9)}
    if 'euler' in opt:
        if pre == 'meta':
            k['meta'] = None
        elif pre == 'none':
            k['meta']['params'] = {}
    return k


def attributes(m, sat_names=None):
    """Comparable description of the parts of a model."""
    d = {}
    if m.model_tdep is not None:
        d['tdep'] = [m.model_tdep.breaks, m.model_tdep.coeffs, m.model_tdep.order, m.model_tdep.nmax]
    if m.model_static is not None:
        d['static'] = [np.ravel(m.model_static.coeffs), m.model_static.nmax]
    for n in ('coeffs_gsm', 'coeffs_sm'):
        if getattr(m, n) is not None:
            d[n] = [getattr(m, n), m.n_gsm if n.endswith('gsm') else m.n_sm]
    if m.breaks_delta is not None:
        for q in ('q10', 'q11', 's11'):
            d['delta' + q] = [np.ravel(m.breaks_delta[q]), np.ravel(m.coeffs_delta[q])]
    if m.model_euler is not None:
        for i, (s, x) in enumerate(m.model_euler.items()):
            p = x.meta['Euler_prerotation']
            d[f'euler{i}'] = [s if sat_names is None else sat_names[i], x.breaks, x.coeffs, p is None, np.zeros(3) if p is None else np.asarray(p)]
    if m.model_cal is not None:
        for s, x in m.model_cal.items():
            d[f'cal{s}'] = [x.breaks, x.coeffs]
    return d


def same(rec, fid, a, b):
    """Attributes equal bit for bit."""
    if not rec.ok(sorted(a) == sorted(b), fid, f'parts {sorted(a)}, expected {sorted(b)}'):
        return False
    for k in a:
        ok = len(a[k]) == len(b[k]) and all(np.shape(x) == np.shape(y) and np.array_equal(x, y) for x, y in zip(a[k], b[k]))
        if not rec.ok(ok, f'{fid}:{k}', f'{k} = {a[k]}, expected {b[k]}'):
            return False
    return True


def answers(rec, fid, a, b, names, new):
    """Every query of the loaded model b answers as of the saved model a."""
    pos = 6800., 50., 60.
    q = [('t', lambda m: m.synth_coeffs_tdep(T, deriv=1)), ('tv', lambda m: m.synth_values_tdep(T, *pos)), ('s', lambda m: m.synth_coeffs_static()),
         ('sv', lambda m: m.synth_values_static(*pos)), ('g', lambda m: m.synth_values_gsm(T, *pos)), ('m', lambda m: m.synth_values_sm(T, *pos, rc_e=-5., rc_i=2.)),
         ('c', lambda m: m(T, *pos, rc_e=1., rc_i=3.))]
    for n, f in q:
        try:
            w = f(a)
        except ValueError:
            rec.raises(f'{fid}:{n}', ValueError, f, b, what='absent part')
        else:
            rec.close(f'{fid}:{n}', np.array(f(b)), np.array(w), 0, 0, what='answer of the loaded model')
    for s, r in zip(names, new):
        for kw in ({}, dict(dim=2), dict(deriv=1)):
            if a.model_euler is not None:
                rec.close(f'{fid}:{s}{kw}', b.synth_euler_angles(T, r, **kw), a.synth_euler_angles(T, s, **kw), 0, 0, what='Euler angles')
    if a.model_cal is not None:
        rec.close(f'{fid}:cal', b.model_cal['cryosat-2_1'].synth_coeffs(T), a.model_cal['cryosat-2_1'].synth_coeffs(T), 0, 0, what='calibration')


def contents(rec, fid, path, k):
    """What other programs find in the file."""
    import h5py
    with h5py.File(path, 'r') as f:
        n = {'pp'} | {x for x, y in (('g', 'coeffs_static'), ('model_ext', 'coeffs_sm'), ('model_Euler', 'coeffs_euler'), ('pp_CAL', 'coeffs_cal')) if y in k}
        rec.ok(n <= set(f) <= n | {'#refs#', 'params'}, f'{fid}:keys', f'file has {sorted(f)}')
        c = k['coeffs_tdep']
        rec.close(f'{fid}:pp', f['pp/coefs'][()].reshape(c.shape), c, 0, 0, what='pp.coefs')
        rec.close(f'{fid}:br', np.ravel(f['pp/breaks'][()]), k['breaks'], 0, 0, what='pp.breaks')
        for x, y in zip(('order', 'pieces', 'dim'), c.shape):
            rec.close(f'{fid}:{x}', np.ravel(f[f'pp/{x}'][()]), [y], 0, 0, what=f'pp.{x}')
        rec.ok(bytes(f['pp/form'][()].astype('u1').ravel()) == b'pp', f'{fid}:form', 'pp.form')
        if 'g' in f:
            rec.close(f'{fid}:g', np.ravel(f['g'][()]), np.ravel(k['coeffs_static']), 0, 0, what='g')
        if 'model_ext' in f:
            e = {x: f[f'model_ext/{x}'][()] for x in f['model_ext']}
            rec.close(f'{fid}:dst', np.ravel(e['m_Dst']), k['coeffs_sm'][:3], 0, 0, what='m_Dst')
            mean = [k['coeffs_delta'][q].mean() for q in ('q10', 'q11', 's11')]
            rec.close(f'{fid}:msm', np.ravel(e['m_sm']), np.concatenate([mean, k['coeffs_sm'][3:]]), 0, 1e-12, what='m_sm')
            rec.close(f'{fid}:gsm', np.ravel(e['m_gsm']), k['coeffs_gsm'][[0, 3]], 0, 0, what='m_gsm')


def cycle(rec, fid, k, path, names=None, satellites='unset', full=True):
    from chaosmagpy.chaos import CHAOS
    m = CHAOS(name='Saved', **k)
    before = fixture.snapshot(m)
    m.save_matfile(path)
    rec.ok(fixture.snapshot(m) == before, f'{fid}:mut', 'saving changed the model')
    contents(rec, fid, path, k)
    given = None if satellites == 'unset' else satellites
    keep = list(given) if given is not None else None
    x = CHAOS.from_mat(path, **({} if satellites == 'unset' else dict(satellites=given)))
    rec.ok(x.name == os.path.splitext(os.path.basename(path))[0], f'{fid}:name', f'name {x.name}')
    if keep is not None:
        rec.ok(list(given) == keep, f'{fid}:list', f'satellite list changed to {given}')
    sats = list(k.get('breaks_euler') or {})
    n, base = len(sats), keep if keep is not None else NAMES
    new = base[:n] + [f'satellite_{i}' for i in range(len(base)+1, n+1)]
    same(rec, f'{fid}:attr', attributes(x), attributes(m, new))
    if full:
        answers(rec, f'{fid}:ans', m, x, sats, new)
    rec.case(fid)
    return x


def partial(rec, part, of):
    from chaosmagpy.chaos import CHAOS
    path = rec.tmp('My.model.mat')
    todo = list(itertools.product(subsets(), ('array', 'none', 'meta'), (2, 3, 1)))
    for opt, pre, pieces in todo[part::of]:
        if pre != 'array' and 'euler' not in opt:
            continue
        if os.path.exists(path):
            os.remove(path)
        x = cycle(rec, f'subset:{opt}:{pre}:{pieces}', kwargs(opt, pre=pre, pieces=pieces), path)
        # once more, saved by the loaded model
        y = rec.tmp('again.mat')
        if os.path.exists(y):
            os.remove(y)
        x.save_matfile(y)
        z = CHAOS.from_mat(y, name='given')
        rec.ok(z.name == 'given', f'name:{opt}', z.name)
        same(rec, f'again:{opt}:{pre}:{pieces}', attributes(z), attributes(x))


def overwrite(rec, part, of, deep):
    """A file that already holds another model."""
    path, tmp = rec.tmp('over.mat'), {}
    from chaosmagpy.chaos import CHAOS
    for i, a in enumerate(subsets()):
        tmp[a] = rec.tmp(f'{i}.mat')
        CHAOS(name='a', **kwargs(a, seed=5, nt=2, ns=4, bins=(1, 3, 2), delta=(2, 4), cal=3)).save_matfile(tmp[a])
    for a, b in list(itertools.product(subsets(), repeat=2))[part::of]:
        shutil.copy(tmp[a], path)
        cycle(rec, f'over:{a}:{b}', kwargs(b), path, full=deep)


def places(rec, first, deep):
    """Every history of single piecewise polynomials saved to three places of one file; all of them are read after every save."""
    import h5py
    from chaosmagpy.chaos import Base, BaseModel
    m = [BaseModel('a', np.array([0., 1.5, 4.]), 4, ref.lcg(4*2*8, 60, -9, 9).reshape(4, 2, 8)), BaseModel('b', np.array([-1., 0., 2., 3.]), 2, ref.lcg(2*3*3, 61, -9, 9).reshape(2, 3, 3)),
         Base('c', np.array([0., 1.]), 1, ref.lcg(4, 62, -9, 9).reshape(1, 1, 4))]
    steps = list(itertools.product(range(3), (None, '/other', '/deep/one')))
    for seq in itertools.product(steps, repeat=3 if deep else 2):
        seq = (steps[first],) + seq
        path, have = rec.tmp('p.mat'), {}
        for k, (i, at) in enumerate(seq):
            m[i].save_matfile(path) if at is None else m[i].save_matfile(path, path=at)
            have[at or '/pp'] = i
            with h5py.File(path, 'r') as f:
                for at, i in have.items():
                    fid, x = f'places:{seq[:k+1]}:{at}', m[i]
                    if not rec.ok(at in f, f'{fid}:gone', f'nothing at {at} after saving {seq[:k+1]}'):
                        return
                    g = f[at]
                    # MATLAB arrays are stored transposed: coefs is (pieces*dim, order), dimension fastest, highest power first
                    want = np.array([[x.coeffs[r, p, c] for p in range(x.pieces) for c in range(x.dim)] for r in range(x.order)])
                    good = rec.close(f'{fid}:coefs', g['coefs'][()], want, 0, 0, what=f'coefs at {at}')
                    good = good and rec.close(f'{fid}:breaks', np.ravel(g['breaks'][()]), x.breaks, 0, 0, what=f'breaks at {at}')
                    for n in ('order', 'pieces', 'dim'):
                        good = good and rec.ok(float(np.ravel(g[n][()])[0]) == getattr(x, n), f'{fid}:{n}', f'{n} {g[n][()]}')
                    good = good and rec.ok(''.join(chr(v) for v in np.ravel(g['form'][()])) == 'pp', f'{fid}:form', 'form')
                    if not good:
                        return
        os.remove(path)
        rec.case(('places', seq))


def sizes(rec, order):
    path = rec.tmp('size.mat')
    for nt, ns, pieces, d, cal in itertools.product((1, 2, 3), (1, 4), (1, 2, 4), ((1, 1), (1, 3), (3, 1), (2, 2)), (1, 3)):
        cycle(rec, f'size:{order}:{nt}:{ns}:{pieces}:{d}:{cal}', kwargs(order=order, nt=nt, ns=ns, pieces=pieces, delta=d, cal=cal), path, full=pieces == 1)


def sats(rec, n, deep):
    """Satellites, bins, and lists of names."""
    path = rec.tmp('sat.mat')
    names = ['alpha', 'bravo', 'charlie', 'delta'][:n]
    lists = ['unset', None] + [['s1', 's2', 's3', 's4', 's5', 's6'][:j] for j in range(7)] + [('t1',), ('t1', 't2', 't3')]
    for bins in itertools.product((1, 2, 3), repeat=n):
        if not deep and n == 4 and sum(bins) % 2:
            continue
        for i, lst in enumerate(lists):
            if lst not in ('unset', None) and not (deep or (i + sum(bins)) % 3 == 0 or bins == (1,)*n):
                continue
            for pre in ('array', 'none') if i % 2 else ('array',):
                cycle(rec, f'sat:{n}:{bins}:{lst}:{pre}', kwargs(('euler',), sats=names, bins=bins, pre=pre, nt=1), path, satellites=lst if isinstance(lst, (str, type(None), tuple)) else list(lst))
    # constant angles: a single break repeated
    for mix in itertools.product((True, False), repeat=n):
        k = kwargs(('euler',), sats=names, bins=(1,)*n, nt=1)
        for s, const in zip(names, mix):
            if const:
                k['breaks_euler'][s] = np.array([-300., -300.])
        cycle(rec, f'const:{n}:{mix}', k, path)


def many(rec):
    """More satellites than default names."""
    for n in (8, 9, 10, 11):
        cycle(rec, f'many:{n}', kwargs(('euler',), sats=[f'x{i}' for i in range(n)], bins=[1 + i % 3 for i in range(n)], nt=1), rec.tmp('many.mat'))


def offsets(rec):
    for a, b in itertools.product(range(1, 6), repeat=2):
        cycle(rec, f'off:{a}:{b}', kwargs(('ext',), delta=(a, b), nt=1), rec.tmp('off.mat'))


def documentation(rec):
    """The shipped MAT-file (written by MATLAB) read independently."""
    import scipy.io
    import chaosmagpy
    from chaosmagpy.chaos import CHAOS, load_CHAOS_matfile
    src = os.path.join(os.path.dirname(os.path.dirname(chaosmagpy.__file__)), 'docs/source/.static/examples/CHAOS-7.mat')
    raw = scipy.io.loadmat(src)
    pp = raw['pp'][0, 0]
    k, p, d = (int(pp[x].item()) for x in ('order', 'pieces', 'dim'))
    c = pp['coefs']
    want = np.array([[[c[j*d + i, o] for i in range(d)] for j in range(p)] for o in range(k)]) if c.shape == (p*d, k) else None
    for m in (CHAOS.from_mat(src), load_CHAOS_matfile(src, name='CHAOS-7', satellites=None)):
        rec.case('documentation')
        rec.ok(m.name == 'CHAOS-7', 'doc:name', m.name)
        rec.close('doc:breaks', m.model_tdep.breaks, np.ravel(pp['breaks']), 0, 0, what='breaks')
        rec.ok(want is not None, 'doc:shape', f'{c.shape}')
        rec.close('doc:coefs', m.model_tdep.coeffs, want, 0, 0, what='coefficients')
        rec.close('doc:g', np.ravel(m.model_static.coeffs), np.ravel(raw['g']), 0, 0, what='static coefficients')
        e = raw['model_ext'][0, 0]
        rec.close('doc:sm', m.coeffs_sm, np.concatenate([np.ravel(e['m_Dst']), np.ravel(e['m_sm'])[3:]]), 0, 0, what='SM')
        rec.close('doc:gsm', m.coeffs_gsm, [e['m_gsm'].ravel()[0], 0, 0, e['m_gsm'].ravel()[1], 0, 0, 0, 0], 0, 0, what='GSM')
        rec.close('doc:q10', np.ravel(m.coeffs_delta['q10']), np.ravel(e['q10']), 0, 0, what='q10')
        rec.close('doc:q11', np.ravel(m.coeffs_delta['q11']), e['qs11'][:, 0], 0, 0, what='q11')
        rec.close('doc:s11', np.ravel(m.coeffs_delta['s11']), e['qs11'][:, 1], 0, 0, what='s11')
        for q in ('q10', 'q11', 's11'):
            rec.close(f'doc:b{q}', m.breaks_delta[q], np.ravel(e['t_break_q10' if q == 'q10' else 't_break_qs11']), 0, 0, what=f'breaks of {q}')
        eu = raw['model_Euler'][0, 0]
        n = eu['alpha'].size
        rec.ok(list(m.model_euler) == NAMES[:n] + [f'satellite_{i}' for i in range(10, n+1)], 'doc:sats', str(list(m.model_euler)))
        for i, s in enumerate(m.model_euler):
            x = m.model_euler[s]
            b = np.ravel(np.ravel(eu['t_break_Euler'])[i])
            rec.close(f'doc:eb{s}', x.breaks, b if b.size > 1 else np.append(b, b), 0, 0, what=f'Euler breaks of {s}')
            for j, a in enumerate(('alpha', 'beta', 'gamma')):
                rec.close(f'doc:e{s}{a}', x.coeffs[0, :, j], np.ravel(np.ravel(eu[a])[i]), 0, 0, what=f'{a} of {s}')
        same(rec, 'doc:again', *[attributes(z) for z in (again(rec, m), m)])


def again(rec, m):
    from chaosmagpy.chaos import CHAOS
    path = rec.tmp('d.mat')
    m.save_matfile(path)
    return CHAOS.from_mat(path)
