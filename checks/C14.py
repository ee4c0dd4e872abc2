"""C14: SHC files round-trip models and tables."""
import itertools
import os
import numpy as np
from mc import ref, fixture

PROPERTY, LEVEL = 'C14', 'exploration'
RULE = ('tables: every degree window, number of nodes, order, header and leap-year convention of writer and reader up to the bound, the file read by an independent '
        'parser and the loader, and independently written files read by the loader; models: every spline order 1..8, number of pieces, spacing, degree window and '
        'convention, values and derivatives compared at all breaks and inside all pieces with a Cox-de Boor reference; node counts for thousands of break spacings; '
        'CHAOS models with and without each internal part')
ASSUMPTIONS = ['models are splines (order-2 times continuously differentiable): the format stores samples, so other piecewise polynomials are not representable',
               'rounding to the printed 1e-8 yr shifts nodes by at most 2e-6 days, which is propagated into the tolerances']
HEADERS = (None, '', '# one line\n', '# 1 2 3 4 5\n#2 3\n   # indented 7\n', '# first\n\n  \n# after empty lines\n', '# no final newline ')
TIMES = (0., -36524.25, 366., 365.99, 730.5, -0.25, 12345.678901, 59.5)


def dyear(t, leap):
    """Reference conversion by civil calendar."""
    if not leap:
        return 2000 + t/365.25
    y = int(2000 + t//366)
    while ref.days_from_civil(y+1, 1, 1) - ref.days_from_civil(2000, 1, 1) <= t:
        y += 1
    a = ref.days_from_civil(y, 1, 1) - ref.days_from_civil(2000, 1, 1)
    return y + (t-a)/(366 if ref.is_leap(y) else 365)


def parse(path):
    """Independent parser: comments and empty lines are skipped."""
    rows = [x.split() for x in open(path) if x.strip() and x.strip()[0] != '#']
    par = [int(x) for x in rows[0]]
    return par, [float(x) for x in rows[1]], [(int(r[0]), int(r[1])) for r in rows[2:]], np.array([[float(x) for x in r[2:]] for r in rows[2:]])


def write(path, par, times, coeffs, layout=0, comments=True):
    """Independent writer with different layouts; coeffs (nt, nc) of the window."""
    eol = '\r\n' if layout == 1 else '\n'
    sep = ('  ', '\t', '   ')[layout]
    nms = order(par[0], par[1])
    with open(path, 'w', newline='') as f:
        if comments:
            f.write(f'# text{eol}#{eol} # 3 4 5{eol}')
        f.write((' ' if layout == 2 else '') + sep.join(str(x) for x in par) + eol)
        if comments:
            f.write(f'# times{eol}')
        f.write(sep*2 + sep.join(f'{float(t)!r}' for t in times) + eol)
        for i, (n, m) in enumerate(nms):
            if comments and i % 3 == 1:
                f.write(f'  # degree {n}{eol}')
            f.write(sep.join([str(n), str(m)] + [f'{float(x):.8f}' if layout < 2 else repr(float(x)) for x in coeffs[:, i]]))
            if not (layout == 2 and i == len(nms)-1):
                f.write(eol)


def order(nmin, nmax):
    out = []
    for n in range(nmin, nmax+1):
        out.append((n, 0))
        for m in range(1, n+1):
            out += [(n, m), (n, -m)]
    return out


def tasks(tier):
    deep = tier == 'thorough'
    out = [('tables', dict(nmax=n, deep=deep)) for n in range(1, 5 if not deep else 7)]
    out += [('foreign', dict(nmax=n)) for n in range(1, 5)]
    out += [('models', dict(k=k, pieces=p, deep=deep)) for k in range(1, 7 if not deep else 9) for p in range(1, 5)]
    out += [('spacing', dict(k=k, part=i, n=4000 if deep else 500)) for k in (2, 3, 4, 5, 6, 7, 8) for i in range(2)]
    out += [('chaos', dict(k=k)) for k in range(1, 7)] + [('extra', dict(k=k)) for k in range(2, 7)]
    out += [('large', dict(k=k, part=i)) for k in (1, 2, 3, 4, 6) for i in range(3)]
    return out


def tables(rec, nmax, deep):
    from chaosmagpy import data_utils as du
    path = rec.tmp('a table.shc')
    nc = nmax*(nmax+2)
    for nt, lo, hi in itertools.product((1, 2, 3, 5), range(1, nmax+1), range(1, nmax+1)):
        if lo > hi:
            continue
        times = np.array(sorted(TIMES[:nt]))
        vals = ref.lcg(nt*nc, nt+7*lo, -40000, 40000).reshape(nt, nc)
        vals[0, 0], vals[-1, -1] = -123456789.87654321, 0.
        for i, (k, w, head) in enumerate(itertools.product((None, 1, 2, 4, 6), (None, True, False), HEADERS)):
            if not deep and (i + lo + hi) % 3:
                continue
            fid = f'table:{nmax}:{nt}:{lo}-{hi}:{k}:{w}:{head!r}'
            kw = dict(order=k, filepath=path, leap_year=w, header=head)
            if lo > 1 or i % 2:
                kw['nmin'] = lo
            if hi < nmax or i % 2 == 0:
                kw['nmax'] = hi
            t, c = times.copy(), vals.copy()
            if nt == 1 and i % 3 == 1:
                du.save_shcfile(float(t[0]), c[0], **kw)
            else:
                du.save_shcfile(t if i % 2 else list(t), c, **kw)
            rec.ok(np.array_equal(t, times) and np.array_equal(c, vals), fid, 'arguments modified')
            leap = w is not False
            par, ft, nm, fc = parse(path)
            sel = vals[:, lo**2-1:(hi+1)**2-1]
            rec.ok(par == [lo, hi, nt, k or 1, (k or 1)-1], f'{fid}:par', f'parameter line {par}')
            rec.ok(nm == order(lo, hi), f'{fid}:nm', f'degrees and orders {nm}')
            rec.close(f'{fid}:file', fc.T, sel, 0, 6e-9 + 3e-16*2e8, what='coefficients in the file')
            rec.close(f'{fid}:ft', ft, [dyear(x, leap) for x in times], 0, 6e-9, what='times in the file')
            for r in (None, True, False) if deep or i % 2 else (w,):
                got = du.load_shcfile(path, leap_year=r)
                want = times if (r is not False) == leap else [dm(x, r is not False) for x in ft]
                rec.close(f'{fid}:{r}:t', got[0], want, 0, 2e-6, what='times')
                rec.close(f'{fid}:{r}:c', got[1], sel.T, 0, 6e-9 + 6e-8, what='coefficients')
                rec.ok([got[2][x] for x in ('nmin', 'nmax', 'N', 'order', 'step')] == par and got[2]['SHC'] == 'a table.shc', f'{fid}:{r}:p', f'parameters {got[2]}')
            rec.case(fid)
    rec.raises(f'window:{nmax}', ValueError, du.save_shcfile, np.zeros(1), np.ones((1, nc)), filepath=path, nmin=nmax+1, what='empty window')


def dm(y, leap):
    if not leap:
        return (y-2000)*365.25
    f = int(np.floor(y))
    return ref.days_from_civil(f, 1, 1) - ref.days_from_civil(2000, 1, 1) + (y-f)*(366 if ref.is_leap(f) else 365)


def foreign(rec, nmax):
    """Independently written files, with comments anywhere."""
    from chaosmagpy import data_utils as du
    path = rec.tmp('f.shc')
    for lo, nt, layout, com in itertools.product(range(1, nmax+1), (1, 2, 4), (0, 1, 2), (False, True)):
        nc = len(order(lo, nmax))
        vals = np.round(ref.lcg(nt*nc, nt+lo, -40000, 40000).reshape(nt, nc), 8)
        ty = [1990.5 + 3.25*i for i in range(nt)]
        write(path, [lo, nmax, nt, 2, 1], ty, vals, layout, com)
        for leap in (None, True, False):
            t, c, p = du.load_shcfile(path, leap_year=leap)
            fid = f'foreign:{nmax}:{lo}:{nt}:{layout}:{com}:{leap}'
            rec.close(fid + 't', t, [dm(y, leap is not False) for y in ty], 0, 1e-6, what='times')
            rec.close(fid + 'c', c, vals.T, 0, 1e-9, what='coefficients')
            rec.ok([p[x] for x in ('nmin', 'nmax', 'N', 'order', 'step')] == [lo, nmax, nt, 2, 1], fid + 'p', f'parameters {p}')
            rec.case(fid)
    if nmax == 2:
        text = open(path).read().replace('#', '%')
        open(path, 'w').write(text)
        t2, c2, p2 = du.load_shcfile(path, comment='%')
        rec.close('comment', c2, c, 0, 0, what='other comment sign')


SPACE = {'even': lambda p: -400. + 182.625*np.arange(p+1), 'far': lambda p: -150000. + 1826.25*np.arange(p+1),
         'uneven': lambda p: np.array([-100.3, 29.7, 400., 431.1, 1999.9])[:p+1], 'tight': lambda p: 365. + 30.2*np.arange(p+1)}


def spline(k, breaks, dim, seed):
    """Control points and knots of a spline; evaluation by Cox-de Boor."""
    knots = np.concatenate([[breaks[0]]*(k-1), breaks, [breaks[-1]]*(k-1)])
    c = ref.lcg((knots.size-k)*dim, seed, -900, 900).reshape(-1, dim)
    return knots, c


def evaluate(knots, c, k, t, nu=0):
    # the right limit, except for the end of the period
    return sum(ref.bspline_basis(knots, k, j, t, nu, knots[-1])*c[j] for j in range(c.shape[0]))


def compare(rec, fid, m, knots, c, k, breaks, lo, scale=900., closed=True):
    """The loaded model against the spline over its whole period."""
    h = np.diff(breaks).min()
    cols = np.arange(c.shape[1]) < lo**2 - 1
    pts = sorted({*breaks.tolist(), *[a + f*(b-a) for a, b in zip(breaks[:-1], breaks[1:]) for f in (0.02, 0.37, 0.5, 0.81, 0.98)]})
    for nu in range(0, min(k, 4)):
        for t in pts:
            if nu >= k-1 and min(abs(t-breaks)) < 1e-3:
                continue     # jump, moved by the rounding of the nodes
            if k == 1 and t == breaks[-1]:
                continue
            if k == 1 and min(abs(t-breaks)) < 1e-3:
                t += 1e-3
            want = np.where(cols, 0., evaluate(knots, c, k, t, nu))*365.25**nu
            got = m.synth_coeffs(t, deriv=nu, extrapolate='spline')
            tol = scale*200*(2e-6/h)*(2*k/h)**nu*365.25**nu*4**k/16 + 2e-7*(2*k/h*365.25)**nu*4**k/16
            if not rec.close(f'{fid}:d{nu}:{t}', got[:c.shape[1]], want, 0, tol, what=f'derivative {nu} at {t}'):
                return


def models(rec, k, pieces, deep):
    from chaosmagpy.chaos import BaseModel
    path = rec.tmp('some.name.shc')
    for s, nmax in itertools.product(SPACE, (1, 2, 3)):
        breaks = SPACE[s](pieces)
        knots, c = spline(k, breaks, nmax*(nmax+2), nmax+k)
        m = BaseModel.from_bspline('M x', knots, c, k)
        before = fixture.snapshot(m)
        for i, (lo, hi, w, head) in enumerate(itertools.product(range(1, nmax+1), range(1, nmax+1), (None, True, False), HEADERS)):
            if lo > hi or not (deep or i % 4 == 0):
                continue
            fid = f'model:{k}:{pieces}:{s}:{nmax}:{lo}-{hi}:{w}:{head!r}'
            m.to_shc(path, nmin=lo if lo > 1 or i % 3 else None, nmax=hi if hi < nmax or i % 3 else None, leap_year=w, header=head)
            par, ft, _, fc = parse(path)
            n = pieces if k == 1 else pieces*(k-1) + 1
            rec.ok(par == [lo, hi, n, k, k-1] and len(ft) == n, f'{fid}:par', f'parameter line {par}')
            x = BaseModel.from_shc(path, leap_year=w, name=None if i % 2 else 'nm', source=('external', None)[i % 2])
            rec.ok(x.name == ('some.name' if i % 2 else 'nm') and x.source == ('internal' if i % 2 else 'external'), f'{fid}:name', f'{x.name} {x.source}')
            rec.ok(x.order == k and x.nmax == hi, f'{fid}:attr', f'order {x.order} nmax {x.nmax}')
            rec.close(f'{fid}:breaks', x.breaks[:pieces + (k > 1)], breaks[:pieces + (k > 1)], 0, 2e-6, what='breaks')
            compare(rec, fid, x, knots, c[:, :hi*(hi+2)], k, breaks, lo)
            rec.case(fid)
        rec.ok(fixture.snapshot(m) == before, f'mut:{k}:{pieces}:{s}:{nmax}', 'model changed')


def spacing(rec, k, part, n):
    """Number of nodes and refit for many break spacings (rounding of the node positions)."""
    from chaosmagpy.chaos import BaseModel
    path = rec.tmp('s.shc')
    for i in range(n):
        d = (30 + 0.1*i) if part == 0 else 365.25/(1 + 0.003*i)
        breaks = np.array([10.5, 10.5+d, 10.5+2*d])
        knots, c = spline(k, breaks, 3, 1+i % 7)
        m = BaseModel.from_bspline('M', knots, c, k)
        m.to_shc(path, leap_year=bool(i % 2))
        par, ft, _, fc = parse(path)
        fid = f'space:{k}:{part}:{d}'
        rec.case(fid)
        if not rec.ok(par[2] == 2*(k-1)+1 == len(ft), fid, f'{par[2]} nodes for order {k} in 2 pieces of {d}'):
            continue
        x = BaseModel.from_shc(path, leap_year=bool(i % 2))
        t = 10.5 + d*1.37
        rec.close(fid, x.synth_coeffs(t), evaluate(knots, c, k, t), 0, 1e-2*4**k/16, what='value')


def chaos(rec, k):
    from chaosmagpy.chaos import CHAOS
    for p, nt, ns, w in itertools.product((1, 2, 3), (1, 2, 3), (None, 3, 4, 5), (None, True, False)):
        breaks = SPACE['uneven'](p)
        knots, c = spline(k, breaks, nt*(nt+2), nt+k)
        from chaosmagpy.chaos import BaseModel
        b = BaseModel.from_bspline('b', knots, c, k)
        st = None if ns is None else ref.lcg(ns*(ns+2), ns, -30, 30)
        if st is not None:
            st[:nt*(nt+2)] = 0
        m = CHAOS(b.breaks, k, coeffs_tdep=b.coeffs, coeffs_static=st, name='MyName')
        path = rec.tmp('chaos-x.shc')
        fid = f'chaos:{k}:{p}:{nt}:{ns}:{w}'
        m.save_shcfile(path, leap_year=w, **({} if nt == 2 else dict(model='tdep')))
        par = parse(path)[0]
        rec.ok(par == [1, nt, p if k == 1 else p*(k-1)+1, k, k-1], fid, f'parameter line {par}')
        rec.ok('MyName' in open(path).read(), fid, 'name not in the header')
        x = CHAOS.from_shc(path, leap_year=w)
        if not (k == 1 and p == 1):
            rec.ok(x.name == 'chaos-x' and x.model_static is None and x.model_tdep is not None and x.coeffs_sm is None, fid, 'parts')
            if x.model_tdep is not None:
                compare(rec, fid, x.model_tdep, knots, c, k, breaks, 1)
        if st is not None and ns > nt:
            for mm, lo in ((m, nt+1), (CHAOS(b.breaks, coeffs_static=st, name='S'), 1)):
                mm.save_shcfile(path, model='static', leap_year=w)
                par = parse(path)[0]
                rec.ok(par == [lo, ns, 1, 1, 0], f'{fid}:static{lo}', f'parameter line {par}')
                x = CHAOS.from_shc(path, leap_year=w, name='other')
                rec.ok(x.name == 'other' and x.model_tdep is None and x.model_static is not None, f'{fid}:static{lo}', 'parts')
                rec.close(f'{fid}:static{lo}', x.synth_coeffs_static(), st, 0, 6e-9, what='static coefficients')
                rec.close(f'{fid}:stime{lo}', x.model_static.breaks[0], breaks[0], 0, 2e-6, what='time of the static part')
                rec.close(f'{fid}:sv{lo}', np.array(x.synth_values_static(6800., 40., 50.)), np.array(m.synth_values_static(6800., 40., 50.)), 0, 1e-6, what='field')
        rec.case(fid)
    if k == 2:
        for nt, ns in ((20, 21), (21, 22), (30, 33), (20, 26)):
            breaks = SPACE['uneven'](1)
            b = BaseModel.from_bspline('b', *spline(k, breaks, nt*(nt+2), 3), k)
            st = ref.lcg(ns*(ns+2), ns, -30, 30)
            st[:nt*(nt+2)] = 0
            m = CHAOS(b.breaks, k, coeffs_tdep=b.coeffs, coeffs_static=st, name='H')
            path = rec.tmp('h.shc')
            m.save_shcfile(path, model='static')
            rec.ok(parse(path)[0] == [nt+1, ns, 1, 1, 0], f'high:{nt}:{ns}', f'parameter line {parse(path)[0]}')
            x = CHAOS.from_shc(path)
            rec.close(f'high:{nt}:{ns}', x.synth_coeffs_static(), st, 0, 6e-9, what='static coefficients')
            m.save_shcfile(path, model='tdep')
            rec.ok(parse(path)[0] == [1, nt, 2, 2, 1], f'hight:{nt}:{ns}', f'parameter line {parse(path)[0]}')
            rec.case((nt, ns))


def extra(rec, k):
    """Foreign time-dependent files: more samples per piece than needed, sites beyond the last break."""
    from chaosmagpy.chaos import BaseModel, CHAOS
    path = rec.tmp('e.shc')
    for p, mult, rest, lo, layout in itertools.product((1, 2, 3), (1, 2, 3), (0, 1), (1, 2), (0, 2)):
        step = (k-1)*mult
        if rest >= step:
            continue
        by = 2000. + 2*np.arange(p+1)
        ty = np.concatenate([by[0] + 2*np.arange(p*step+1)/step, [by[-1] + 0.1*(i+1) for i in range(rest)]])
        breaks = (by-2000)*365.25
        knots, c = spline(k, breaks, 8, k+p)
        vals = np.array([evaluate(knots, c, k, (y-2000)*365.25) if y <= by[-1] else np.full(8, 12345.) for y in ty])
        write(path, [lo, 2, len(ty), k, step], ty, vals[:, lo**2-1:], layout)
        fid = f'extra:{k}:{p}:{mult}:{rest}:{lo}:{layout}'
        for x in (BaseModel.from_shc(path), CHAOS.from_shc(path).model_tdep):
            rec.close(fid + 'b', x.breaks, breaks, 0, 1e-5, what='breaks')
            compare(rec, fid, x, knots, c, k, breaks, lo)
        rec.case(fid)
    # piecewise constant: the step may be written as 0 or 1
    if k == 2:
        for step in (0, 1):
            vals = ref.lcg(9, 3, -50, 50).reshape(3, 3)
            write(path, [1, 1, 3, 1, step], [2000., 2003., 2010.], vals, 2)
            x = BaseModel.from_shc(path)
            for y, i in ((2000.5, 0), (2003., 1), (2009.99, 1), (2010., 2), (2015., 2)):
                rec.close(f'const:{step}:{y}', x.synth_coeffs((y-2000)*365.25), vals[i], 0, 1e-9, what='piecewise constant')
    assert os.path.exists(path)


def large(rec, k, part):
    """Long and high-degree tables and models."""
    from chaosmagpy import data_utils as du
    from chaosmagpy.chaos import BaseModel, CHAOS
    path = rec.tmp('large.shc')
    if part == 0:
        for nt, nmax in ((24, 10), (25, 10), (49, 5), (50, 5), (51, 5), (52, 13), (99, 3), (100, 3), (101, 3), (127, 2), (255, 2), (256, 2), (257, 2), (400, 1), (999, 1), (1001, 1), (3, 20), (1, 45), (2, 90), (1, 133)):
            nc = nmax*(nmax+2)
            vals = ref.lcg(nt*nc, nt+k, -1, 1)*10.**(np.arange(nt*nc) % 9 - 3.)
            vals = np.round(vals.reshape(nt, nc), 8)
            times = -30000. + 181.37*np.arange(nt)
            fid = f'large:{k}:{nt}:{nmax}'
            rec.case(fid, n=nt*nc)
            du.save_shcfile(times, vals, order=k, filepath=path)
            par, ft, nm, fc = parse(path)
            rec.ok(par == [1, nmax, nt, k, k-1] and nm == order(1, nmax), fid, f'parameter line {par}')
            rec.close(f'{fid}:file', fc.T, vals, 0, 6e-9, what='coefficients in the file')
            t, c, p = du.load_shcfile(path)
            rec.close(f'{fid}:t', t, times, 0, 2e-6, what='times')
            rec.close(f'{fid}:c', c.T, vals, 0, 6e-9, what='coefficients')
            # independently written
            write(path, [1, nmax, nt, k, k-1], 1900. + 0.5*np.arange(nt), vals, 2, nt % 2)
            t, c, p = du.load_shcfile(path, leap_year=False)
            rec.close(f'{fid}:ft', t, (1900. + 0.5*np.arange(nt) - 2000.)*365.25, 0, 1e-6, what='times')
            rec.close(f'{fid}:fc', c.T, vals, 0, 0, what='coefficients')
        return
    for pieces, nmax in ((20, 4), (33, 1), (60, 2), (101, 1)) if part == 1 else ((1, 13), (2, 20), (5, 10)):
        breaks = -7000. + np.cumsum(150. + 40*np.sin(np.arange(pieces+1.)))
        knots = np.concatenate([[breaks[0]]*(k-1), breaks, [breaks[-1]]*(k-1)])
        c = ref.lcg((knots.size-k)*nmax*(nmax+2), k+pieces, -900, 900).reshape(knots.size-k, -1)
        m = BaseModel.from_bspline('big', knots, c, k)
        h = np.diff(breaks).min()
        for leap in (True, False):
            for via in ('base', 'chaos'):
                fid = f'largem:{k}:{pieces}:{nmax}:{leap}:{via}'
                rec.case(fid, n=c.size)
                if via == 'base':
                    m.to_shc(path, leap_year=leap)
                    x = BaseModel.from_shc(path, leap_year=leap)
                else:
                    CHAOS(m.breaks, k, coeffs_tdep=m.coeffs, name='C').save_shcfile(path, leap_year=leap)
                    x = CHAOS.from_shc(path, leap_year=leap).model_tdep
                    if k == 1 and pieces == 1:
                        continue
                if not rec.ok(x.order == k and x.nmax == nmax and x.pieces == (pieces if k > 1 else max(pieces-1, 1)) or k == 1, fid, f'{x.order} {x.nmax} {x.pieces}'):
                    continue
                for i in sorted({0, 1, 2, pieces//3, pieces//2, pieces-3, pieces-2, pieces-1} & set(range(pieces))):
                    for w in (0.03, 0.5, 0.9):
                        t = breaks[i] + w*(breaks[i+1]-breaks[i])
                        for nu in range(min(k, 3)):
                            want = sum(ref.bspline_basis(knots[j:j+k+1], k, 0, t, nu, breaks[-1])*c[j] for j in range(i, i+k))*365.25**nu
                            tol = 900.*200*(2e-6/h)*(2*k/h)**nu*365.25**nu*4**k/16 + 2e-7*(2*k/h*365.25)**nu*4**k/16
                            rec.close(f'{fid}:{i}:{w}:{nu}', x.synth_coeffs(t, deriv=nu), want, 0, tol, what=f'derivative {nu} at {t}')
