"""C16: text model files are loaded as the splines they tabulate."""
import itertools
import os
import numpy as np
from mc import ref, fixture

PROPERTY, LEVEL = 'C16', 'exploration'
RULE = ('files of the four formats written independently for every degree, number of knots or epochs, order, knot spacing and text layout up to the bound; the loaded model and its '
        'derivatives compared at all knots and inside every piece with the Cox-de Boor spline on the tabulated knots (IGRF: with the table and its linear interpolant)')
ASSUMPTIONS = ['a B-spline file with nspl functions of order k has nspl+k knots; the spline is defined between the first and the last of them']


def tasks(tier):
    deep = tier == 'thorough'
    out = [('covobs', dict(order=k, deep=deep)) for k in (2, 3, 4, 5, 6)]
    out += [('gufm', dict(nmax=n, deep=deep)) for n in (1, 2, 3)] + [('cals', dict(nmax=n, deep=deep)) for n in (1, 2, 3)]
    out += [('igrf', dict(nmax=n, deep=deep)) for n in (1, 2, 3, 10)]
    return out


def knots_of(kind, n):
    i = np.arange(n)
    return {'even': 1840. + 2.5*i, 'uneven': np.round(1590. + 7*i + 2.5*np.sin(2*i), 4), 'bc': -50. + 30.*i}[kind]


def text(values, layout, fortran=False):
    """Numbers in lines of various shapes."""
    fmt = (lambda x: f'{x:.6f}', lambda x: f'{x:+.12E}', lambda x: f'{x:.10e}')[layout]
    s = [fmt(float(x)) for x in values]
    if fortran:
        s = [x.replace('E', 'D').replace('e', 'D') for x in s]
    per, sep, lead = ((4, ' ', ' '), (1, '  ', ''), (7, '   ', '\t'))[layout]
    return ''.join(lead + sep.join(s[i:i+per]) + '\n' for i in range(0, len(s), per))


def spread(n, seed):
    """Coefficients of very different size: negative and positive exponents."""
    return ref.lcg(n, seed, -3, 3)*10.**(np.arange(n)*5 % 11 - 6.)


def coefs(n, nmax, kind):
    m = n*nmax*(nmax+2)
    return (spread(m, n+nmax) if kind == 'uneven' else ref.lcg(m, n+nmax, -30000, 30000)).reshape(n, -1)


def rounded(values, layout):
    return np.array([float((f'{x:.6f}', f'{x:+.12E}', f'{x:.10e}')[layout]) for x in np.ravel(values)]).reshape(np.shape(values))


def compare(rec, fid, m, years, c, order, nmax, name):
    """m against sum_j c_j B_j on the simple knots."""
    kn = (np.asarray(years) - 2000.)*365.25
    rec.ok(m.name == name and m.nmax == nmax and m.order == order and m.source == 'internal', f'{fid}:attr', f'{m.name} {m.nmax} {m.order} {m.source}')
    if not rec.ok(np.shape(m.breaks) == kn.shape, f'{fid}:n', f'{np.shape(m.breaks)} breaks'):
        return
    rec.close(f'{fid}:breaks', m.breaks, kn, 1e-14, 1e-7, what='breaks')
    h = np.diff(kn).min()
    pts = sorted({*kn.tolist(), *[a + f*(b-a) for a, b in zip(kn[:-1], kn[1:]) for f in (0.03, 0.5, 0.91)]})
    for nu in range(min(order, 4)):
        for t in pts:
            if nu == order-1 and t in kn:
                continue
            want = sum(ref.bspline_basis(kn, order, j, t, nu, kn[-1])*c[j] for j in range(c.shape[0]))*365.25**nu
            tol = 1e-9*np.abs(c).max()*(2*order/h*365.25)**nu
            if not rec.close(f'{fid}:d{nu}:{t}', m.synth_coeffs(t, deriv=nu, extrapolate='spline'), want, 0, tol, what=f'derivative {nu} at {t}'):
                return
    rec.case(fid)


def covobs(rec, order, deep):
    from chaosmagpy.chaos import load_CovObs_txtfile
    for nmax, n, kind, layout, line in itertools.product((1, 2, 3), (1, 2, 3, 5), ('even', 'uneven', 'bc'), (0, 1, 2), (0, 1)):
        years = rounded(knots_of(kind, n+order), layout)
        c = rounded(coefs(n, nmax, kind), layout)
        path = rec.tmp('COV x.2.txt')
        with open(path, 'w') as f:
            f.write(('# model 1 2 3\n', 'COV-OBS.x2 MODEL 12 3\n')[line])
            f.write(f'{"  "*line}{nmax} {7+line} {order} ' + text(years, layout).replace('\n', ' ') + '\n')
            if line:
                f.write(text(c.ravel(), layout))
            else:
                f.write(''.join(text(x, layout) for x in c))
        kw = dict(name='N') if line else {}
        compare(rec, f'cov:{order}:{nmax}:{n}:{kind}:{layout}:{line}', load_CovObs_txtfile(path, **kw), years, c, order, nmax, 'N' if line else 'COV x.2')


def gufm(rec, nmax, deep):
    from chaosmagpy.chaos import load_gufm1_txtfile
    for n, kind, layout, line in itertools.product((1, 2, 3, 4, 6) + ((9,) if deep else ()), ('even', 'uneven', 'bc'), (0, 1, 2), (0, 1, 2)):
        years = rounded(knots_of(kind, n+4), layout)
        c = rounded(coefs(n, nmax, kind), layout)
        path = rec.tmp('gufm.txt')
        with open(path, 'w') as f:
            f.write(('Model gufm1 1590\n', '# 14 163\n', '\n')[line])
            f.write(f'  {nmax}   {n}' + ('\n', ' ', '\n\t')[line])
            f.write(text(years, layout) + text(c.ravel(), layout))
        kw = dict(name='N') if line else {}
        compare(rec, f'gufm:{nmax}:{n}:{kind}:{layout}:{line}', load_gufm1_txtfile(path, **kw), years, c, 4, nmax, 'N' if line else 'gufm')


def cals(rec, nmax, deep):
    from chaosmagpy.chaos import load_CALS7K_txtfile
    for n, kind, layout, line in itertools.product((1, 2, 3, 4, 6) + ((9,) if deep else ()), ('even', 'uneven', 'bc'), (0, 1, 2), (0, 1, 2)):
        years = rounded(knots_of(kind, n+4), layout)
        c = rounded(coefs(n, nmax, kind), layout)
        path = rec.tmp('CALS7K.2')
        with open(path, 'w') as f:
            head = [f'{years[0]:.1f}', f'{years[-1]:.1f}', '4', '0', str(nmax), '1', str(n)]
            f.write(('\n', ' ', '   \n')[line].join(head) + '\n')
            f.write(text(years, layout, line > 0) + text(c.ravel(), layout, line > 0))
        kw = dict(name='N') if line else {}
        compare(rec, f'cals:{nmax}:{n}:{kind}:{layout}:{line}', load_CALS7K_txtfile(path, **kw), years, c, 4, nmax, 'N' if line else 'CALS7K.2')


def mjd(y):
    f = int(np.floor(y))
    return ref.days_from_civil(f, 1, 1) - ref.days_from_civil(2000, 1, 1) + (y-f)*(366 if ref.is_leap(f) else 365)


def igrf(rec, nmax, deep):
    from chaosmagpy.chaos import load_IGRF_txtfile
    nms = [(a, n, m) for n in range(1, nmax+1) for m in range(n+1) for a in ('g', 'h')[:2 if m else 1]]
    for n, start, layout, com in itertools.product((1, 2, 3, 5), (1900., 1997.5, 2020.), (0, 1, 2), (0, 1, 2)):
        ep = start + 5.*np.arange(n)
        tab = np.round(ref.lcg(n*len(nms), n+nmax, -30000, 30000).reshape(n, -1), 2)
        sv = np.round(ref.lcg(len(nms), n, -90, 90), 1)
        path = rec.tmp('igrf13coeffs.v1.txt')
        sep = (' ', '\t', '    ')[layout]
        with open(path, 'w') as f:
            if com:
                f.write('# 13th Generation 1 2 3\n' + '   # indented\n'*(com-1))
            f.write(sep.join(['c/s', 'deg', 'ord'] + ['IGRF']*n + ['SV']) + '\n')
            f.write(' '*com + sep.join(['g/h', 'n', 'm'] + [f'{x:.1f}' for x in ep] + [f'{ep[-1]:.0f}-{ep[-1]+5:.0f}'[:7]]) + '\n')
            for i, (a, deg, m) in enumerate(nms):
                if com == 2 and i == 2:
                    f.write('# comment 5\n\n')
                f.write(sep.join([a, str(deg), str(m)] + [f'{x:.2f}' if layout else f'{x:9.2f}' for x in tab[:, i]] + [f'{sv[i]:.1f}']) + '\n')
        fid = f'igrf:{nmax}:{n}:{start}:{layout}:{com}'
        m = load_IGRF_txtfile(path, **(dict(name='N') if com == 1 else {}))
        t = np.array([mjd(y) for y in [*ep, ep[-1]+5]])
        vals = np.vstack([tab, tab[-1] + 5*sv])
        rec.ok(m.name == ('N' if com == 1 else 'igrf13coeffs.v1') and m.nmax == nmax and m.order == 2 and m.source == 'internal', f'{fid}:attr', f'{m.name} {m.nmax} {m.order}')
        if not rec.ok(np.shape(m.breaks) == t.shape, f'{fid}:n', f'{np.shape(m.breaks)}'):
            continue
        rec.close(f'{fid}:breaks', m.breaks, t, 1e-14, 1e-7, what='breaks')
        rec.close(f'{fid}:nodes', m.synth_coeffs(t), vals, 0, 1e-8, what='tabulated epochs')
        for i in range(n):
            for w in (0.1, 0.5, 0.99):
                x = t[i] + w*(t[i+1]-t[i])
                rec.close(f'{fid}:{i}:{w}', m.synth_coeffs(x), (1-w)*vals[i] + w*vals[i+1], 0, 1e-8, what='between epochs')
                rec.close(f'{fid}:{i}:{w}:d', m.synth_coeffs(x, deriv=1), (vals[i+1]-vals[i])/(t[i+1]-t[i])*365.25, 0, 1e-8, what='secular variation')
        rec.case(fid)
        assert os.path.exists(path) and fixture
