"""C32: plots show what was computed (figures are drawn off screen and read back)."""
import itertools
import math
import warnings
import numpy as np
from mc import ref, fixture, fault

PROPERTY, LEVEL = 'C32', 'exploration'
RULE = ('every plotting function and plotting method for every combination of its options (degree, derivative, extrapolation, source, '
        'reference, panel layout, titles, labels, size, projection, colour options, None) within the stated sets, on models of several '
        'orders; lines, meshes, abscissae, limits, titles and labels are read back from the figure and compared with values computed '
        'independently at the coordinates found in the figure.')
ASSUMPTIONS = ['figures are drawn with the Agg backend', 'colour limits are only compared for a single panel or when given by the user']


def tasks(tier):
    more = tier == 'thorough'
    out = [('series', dict(n=n)) for n in (1, 2, 3, 4)] + [('maps', dict(n=n)) for n in (1, 2, 3)] + [('spectrum', {})]
    for order in (1, 2, 4):
        out.append(('model_series', dict(order=order, more=more)))
        for deriv in (None, 0, 1, 2):
            out.append(('model_maps', dict(order=order, deriv=deriv, more=more)))
        out.append(('model_spectrum', dict(order=order)))
    out += [('chaos_static', {})] + [('chaos_external', dict(reference=r)) for r in (None, 'all', 'gsm', 'sm', 'GSM')] + [('chaos_tdep', {}), ('missing', {})]
    return out


WEIGHT = {'model_maps': 3, 'chaos_external': 3, 'chaos_static': 3, 'maps': 2}


def drawn(rec, fid, fn, *args, **kw):
    """Call fn, return the one new figure."""
    import matplotlib.pyplot as plt
    plt.close('all')
    fn(*args, **kw)
    nums = plt.get_fignums()
    if not rec.ok(len(nums) == 1, f'{fid}:fig', f'{len(nums)} figures drawn'):
        return None
    return plt.figure(nums[0])


def panels(fig):
    from matplotlib.collections import QuadMesh
    main = [a for a in fig.axes if a.get_subplotspec() is not None and a.get_label() != '<colorbar>']
    mesh = [[c for c in a.collections if isinstance(c, QuadMesh)] for a in main]
    bars = [a for a in fig.axes if a.get_label() == '<colorbar>']
    return main, mesh, bars


def geometry(ax):
    """Row and column of the panel in a possibly nested layout."""
    s = ax.get_subplotspec().get_topmost_subplotspec()
    return s.get_gridspec().get_geometry(), (s.rowspan.start, s.colspan.start)


def mjd(x):
    x = np.asarray(x)
    if x.dtype.kind == 'M':
        return (x - np.datetime64('2000-01-01', 'us')) / np.timedelta64(1, 'D')
    return np.asarray(x, float) - 10957.   # matplotlib dates: days since 1970


def series(rec, n):
    from chaosmagpy import plot_utils as pu
    rng = 7
    t = np.array([-3000.25, -10., 0., 0.5, 41.75, 8000.])
    ys = [ref.lcg(t.size, 3+i, -100, 100) for i in range(n)]
    ys[0][2] = np.nan
    lays = [None] + [(a, b) for a in range(1, 5) for b in range(1, 5)]
    for lay in lays:
        kw = {} if lay is None else dict(layout=lay)
        good = lay is None or lay[0]*lay[1] == n
        rec.case((n, lay), nontrivial=good)
        if not good:
            rec.raises(f'layout:{n}:{lay}', ValueError, pu.plot_timeseries, t, *ys, what=f'layout {lay} for {n} panels', **kw)
            continue
        for opt in ({}, dict(titles=[f'panel {i}' for i in range(n)]), dict(ylabel='unit x'), dict(figsize=(5., 3.)), dict(color='r', linewidth=3.5, linestyle='--', marker='o'),
                    dict(titles=None, ylabel=None, figsize=None)):
            tag = f'{n}:{lay}:{sorted(opt)}'
            keep = [np.copy(y) for y in ys], t.copy(), dict(opt), list(opt.get('titles') or [])
            fig = drawn(rec, tag, pu.plot_timeseries, t, *ys, **kw, **opt)
            if fig is None:
                continue
            main = [a for a in fig.axes]
            rec.case(tag)
            if not rec.ok(len(main) == n and all(len(a.lines) == 1 for a in main), f'panels:{tag}', f'{len(main)} panels'):
                continue
            for i, ax in enumerate(main):
                ln = ax.lines[0]
                rec.close(f'x:{tag}:{i}', mjd(ln.get_xdata()), t, 0, 1e-6, what='abscissae')
                rec.close(f'y:{tag}:{i}', np.asarray(ln.get_ydata(), float), ys[i], 0, 0, what='ordinates')
                rec.ok(geometry(ax) == ((lay or (n, 1)), divmod(i, (lay or (n, 1))[1])), f'place:{tag}:{i}', f'panel at {geometry(ax)}')
                rec.ok(ax.get_title() == (opt.get('titles') or n*[''])[i] and ax.get_ylabel() == (opt.get('ylabel') or ''), f'text:{tag}:{i}', 'title or label')
                if 'color' in opt:
                    rec.ok((ln.get_color(), ln.get_linewidth(), ln.get_linestyle(), ln.get_marker()) == ('r', 3.5, '--', 'o'), f'style:{tag}:{i}', 'line options ignored')
            if opt.get('figsize'):
                rec.close(f'size:{tag}', fig.get_size_inches(), [5., 3.], 1e-9, 0, what='figure size')
            rec.ok(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(keep[0], ys)) and np.array_equal(keep[1], t) and keep[2] == opt
                   and keep[3] == list(opt.get('titles') or []), f'mutate:{tag}', 'arguments modified')
    # two-dimensional times are flattened
    # times in any order, repeated, many
    many = ref.lcg(1501, 5, -9000, 9000)
    for i, tt in enumerate([*(np.array(p) for p in itertools.permutations(t[[0, 2, 3, 5]])), t[::-1], np.array([3., 3., -1., 3.]), np.array([5.]), many, np.sort(many)]):
        yy = [ref.lcg(tt.size, 30+j, -100, 100) for j in range(n)]
        fig = drawn(rec, f'order:{n}:{i}', pu.plot_timeseries, tt, *yy)
        rec.case((n, 'order', i))
        if fig is not None and rec.ok(len(fig.axes) == n, f'order:{n}:{i}', f'{len(fig.axes)} panels'):
            for j, ax in enumerate(fig.axes):
                rec.close(f'order:x:{n}:{i}:{j}', mjd(ax.lines[0].get_xdata()), tt, 0, 1e-6, what='abscissae in the given order')
                rec.close(f'order:y:{n}:{i}:{j}', ax.lines[0].get_ydata(), yy[j], 0, 0, what='values in the given order')
    fig = drawn(rec, f'2d:{n}', pu.plot_timeseries, t.reshape(2, 3), *ys)
    rec.close(f'x2d:{n}', mjd(fig.axes[0].lines[0].get_xdata()), t, 0, 1e-6, what='abscissae of 2-d time')


def mesh_points(mesh):
    c = mesh._coordinates if not hasattr(mesh, 'get_coordinates') else mesh.get_coordinates()
    c = np.asarray(c)
    mid = (c[:-1, :-1] + c[1:, :-1] + c[:-1, 1:] + c[1:, 1:])/4
    return 90. - np.degrees(mid[..., 1]), np.degrees(mid[..., 0]), np.asarray(mesh.get_array()).reshape(mid.shape[:2])


def maps(rec, n):
    from chaosmagpy import plot_utils as pu
    grids = [('1d', np.linspace(4, 176, 9), np.linspace(-170, 170, 13)), ('north', np.linspace(10, 60, 5), np.linspace(-30, 90, 4))]
    th, ph = np.meshgrid(grids[0][1], grids[0][2], indexing='ij')
    grids.append(('2d', th, ph))
    for name, th, ph in grids:
        shape = th.shape if th.ndim == 2 else (th.size, ph.size)
        zs = [ref.lcg(int(np.prod(shape)), 5+i, -50-i, 40+i).reshape(shape) for i in range(n)]
        for lay in [None] + [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)]:
            kw = {} if lay is None else dict(layout=lay)
            if lay is not None and lay[0]*lay[1] != n:
                rec.raises(f'layout:{n}:{lay}', ValueError, pu.plot_maps, th, ph, *zs, what=f'layout {lay}', **kw)
                continue
            opts = [{}, dict(titles=[f'm{i}' for i in range(n)], label='nT?', figsize=(4., 6.)), dict(vmin=-3., vmax=7., cmap='viridis', projection='hammer'),
                    dict(limiter=lambda x: 12.5), dict(titles=None, label=None, cmap=None, projection=None, limiter=None)]
            if name != '1d':
                opts = opts[:1]
            for k, opt in enumerate(opts):
                tag = f'{n}:{name}:{lay}:{k}'
                rec.case(tag)
                keep = [z.copy() for z in zs], th.copy(), ph.copy(), dict(opt)
                fig = drawn(rec, tag, pu.plot_maps, th, ph, *zs, **kw, **opt)
                if fig is None:
                    continue
                main, mesh, bars = panels(fig)
                if not rec.ok(len(main) == n and all(len(m) == 1 for m in mesh) and len(bars) == n, f'panels:{tag}', f'{len(main)} panels, {len(bars)} colour bars'):
                    continue
                for i, (ax, (m,)) in enumerate(zip(main, mesh)):
                    T, P, Z = mesh_points(m)
                    TT, PP = (th, ph) if th.ndim == 2 else np.meshgrid(th, ph, indexing='ij')
                    rec.close(f'val:{tag}:{i}', Z, zs[i], 0, 0, what='mesh values')
                    rec.close(f'lat:{tag}:{i}', T, TT, 0, 1e-9, what='colatitudes')
                    rec.close(f'lon:{tag}:{i}', P, PP, 0, 1e-9, what='longitudes')
                    rec.ok(geometry(ax) == ((lay or (n, 1)), divmod(i, (lay or (n, 1))[1])), f'place:{tag}:{i}', f'panel at {geometry(ax)}')
                    rec.ok(ax.get_title() == (opt.get('titles') or n*[''])[i] and bars[i].get_ylabel() == (opt.get('label') or ''), f'text:{tag}:{i}', 'title or label')
                    if 'vmin' in opt:
                        rec.ok(m.get_clim() == (-3., 7.) and m.get_cmap().name == 'viridis' and ax.name == 'hammer', f'opts:{tag}:{i}', 'options ignored')
                    else:
                        rec.ok(m.get_cmap().name == 'PuOr_r' and ax.name == 'mollweide', f'defaults:{tag}:{i}', 'documented defaults')
                        if opt.get('limiter'):
                            rec.ok(m.get_clim() == (-12.5, 12.5), f'limiter:{tag}:{i}', f'limits {m.get_clim()}')
                        elif n == 1:
                            v = float(np.max(np.abs(zs[0])))
                            rec.ok(m.get_clim() == (-v, v), f'limits:{tag}', f'limits {m.get_clim()} instead of {v}')
                    rec.ok(len(ax.lines) > 10, f'coast:{tag}:{i}', 'no coastline')
                if 'figsize' in opt and opt['figsize']:
                    rec.close(f'size:{tag}', fig.get_size_inches(), [4., 6.], 1e-9, 0, what='figure size')
                rec.ok(all(np.array_equal(a, b) for a, b in zip(keep[0] + [keep[1], keep[2]], zs + [th, ph])) and keep[3] == opt, f'mutate:{tag}', 'arguments modified')


def spectrum(rec):
    from chaosmagpy import plot_utils as pu
    for n in (1, 2, 5, 20):
        for zeros in ((), (0,), (n-1,), tuple(range(n))):
            for opt in ({}, dict(titles='the title', ylabel='(nT)2'), dict(figsize=(3., 4.)), dict(color='g', marker='x', linestyle=':'), dict(titles=None, ylabel=None, figsize=None)):
                s = 10.**(ref.lcg(n, n, -6, 9) if 'color' not in opt else ref.lcg(n, n, -90, 90))
                s[list(zeros)] = 0.
                keep, tag = s.copy(), f'{n}:{zeros}:{sorted(opt)}'
                rec.case(tag)
                fig = drawn(rec, tag, pu.plot_power_spectrum, s, **opt)
                if fig is None or not rec.ok(len(fig.axes) == 1 and len(fig.axes[0].lines) == 1, f'panels:{tag}', 'one panel, one line'):
                    continue
                ax = fig.axes[0]
                ln = ax.lines[0]
                rec.close(f'x:{tag}', np.asarray(ln.get_xdata(), float), np.arange(1., n+1), 0, 0, what='degrees')
                rec.close(f'y:{tag}', np.asarray(ln.get_ydata(), float), np.where(keep == 0, np.nan, keep), 0, 0, what='spectrum')
                rec.ok(ax.get_yscale() == 'log' and ax.get_title() == (opt.get('titles') or '') and ax.get_ylabel() == (opt.get('ylabel') or ''), f'text:{tag}', 'axis scale, title or label')
                if 'color' in opt:
                    rec.ok((ln.get_color(), ln.get_marker(), ln.get_linestyle()) == ('g', 'x', ':'), f'style:{tag}', 'line options ignored')
                if opt.get('figsize'):
                    rec.close(f'size:{tag}', fig.get_size_inches(), [3., 4.], 1e-9, 0, what='figure size')
                rec.ok(np.array_equal(s, keep), f'mutate:{tag}', 'array of the caller modified')


# --- models

BR = np.array([-700., -100., 150., 1000.])


def basemodel(order, nmax=3, source='internal'):
    from chaosmagpy.chaos import BaseModel
    c = ref.lcg(order*3*nmax*(nmax+2), 11, -100, 100).reshape(order, 3, -1)
    for k in range(order):
        c[k] /= 250.**(order-1-k)
    return BaseModel('B', BR.copy(), order, c.copy(), source=source), c


def coeffs_at(c, t, deriv):
    t = float(t)
    if t < BR[0] or t > BR[-1]:    # default: linear continuation
        e = BR[0] if t < BR[0] else BR[-1]
        order = c.shape[0]
        a0, a1 = ref.pp_eval(c, BR, e, 0), ref.pp_eval(c, BR, e, 1) if order > 1 else 0*c[0, 0]
        v = a0 + a1*(t-e) if deriv == 0 else (a1 if deriv == 1 else 0*a1)
    else:
        v = ref.pp_eval(c, BR, t, deriv)
    return v*365.25**deriv


UNITS = {0: 'nT', 1: r'$\mathrm{nT}/\mathrm{yr}$', 2: r'$\mathrm{nT}/\mathrm{yr}^{2}$', 3: r'$\mathrm{nT}/\mathrm{yr}^{3}$'}


def unit_text(s):
    return s.replace('{{', '{').replace('}}', '}').replace('{', '').replace('}', '')


def check_map(rec, tag, fig, coeffs, nms, radius, source, label, opt=(), count=40):
    """Three panels with the components of the field at the coordinates of the figure."""
    main, mesh, bars = panels(fig)
    if not rec.ok(len(main) == 3 and all(len(m) == 1 for m in mesh), f'panels:{tag}', f'{len(main)} panels'):
        return
    comp = [mesh_points(m[0]) for m in mesh]
    T, P = comp[0][0], comp[0][1]
    ok = rec.ok(all(np.array_equal(T, c[0]) and np.array_equal(P, c[1]) for c in comp), f'grid:{tag}', 'panels with different grids')
    rec.ok(T.min() < 5 and T.max() > 175 and P.min() < -175 and P.max() > 175, f'cover:{tag}', 'map does not cover the globe')
    ny, nx = T.shape
    for q in range(count):
        i, j = (q*37) % ny, (q*101 + 13) % nx
        want = sum((ref.field(c, nm, r, T[i, j], P[i, j], source=s) for c, nm, r, s in zip(coeffs, nms, radius, source)), np.zeros(3))
        got = np.array([c[2][i, j] for c in comp])
        scale = 1e-9*(1 + np.max(np.abs(want)))
        if not rec.close(f'val:{tag}:{i}:{j}', got, want, 1e-8, scale, what=f'plotted field at colatitude {T[i, j]} longitude {P[i, j]}'):
            break
    if label is not None:
        rec.ok(all(unit_text(b.get_ylabel()) == unit_text(label) for b in bars), f'label:{tag}', f'colour bar says {bars[0].get_ylabel()!r}')
    return main, mesh, bars


def model_maps(rec, order, deriv, more):
    for source, nmax in itertools.product(('internal', 'external'), (None, 1, 2, 3, 5)):
        if nmax == 1 and source == 'external' and not more:
            continue
        m, c = basemodel(order, source=source)
        for t in (-350.5, BR[1], BR[-1], 1500., np.array(0.)) if more else (-350.5, BR[-1] if nmax else 1500.):
            radius = 7000. if source == 'internal' else 6300
            kw = {k: v for k, v in (('nmax', nmax), ('deriv', deriv)) if v is not None or nmax == 2}
            tag = f'{order}:{deriv}:{source}:{nmax}:{t}'
            before = fixture.snapshot(m)
            with warnings.catch_warnings(record=True) as log:
                warnings.simplefilter('always')
                fig = drawn(rec, tag, m.plot_maps, t, radius, **kw)
            rec.case(tag)
            if fig is None:
                continue
            k = min(nmax or 3, 3)
            rec.ok((nmax == 5) == any(fault.kind(w.message) == 'degree' for w in log if w.category is UserWarning), f'warn:{tag}', f'warnings {[str(w.message)[:60] for w in log]}')
            d = deriv or 0
            check_map(rec, tag, fig, [coeffs_at(c, t, d)[:k*(k+2)]], [ref.nm_list(1, k)], [radius], [source], UNITS[d])
            rec.ok(fixture.snapshot(m) == before, f'mutate:{tag}', 'model modified')
    m, c = basemodel(order)
    fig = drawn(rec, 'opts', m.plot_maps, 10., 6371.2, titles=['a', 'b', 'c'], label='L', cmap='plasma', vmin=-1., vmax=2., layout=(1, 3), figsize=(9., 2.), deriv=deriv)
    r = check_map(rec, f'opts:{order}:{deriv}', fig, [coeffs_at(c, 10., deriv or 0)], [ref.nm_list(1, 3)], [6371.2], ['internal'], 'L', count=5)
    if r:
        main, mesh, bars = r
        rec.ok([a.get_title() for a in main] == ['a', 'b', 'c'] and all(q[0].get_clim() == (-1., 2.) and q[0].get_cmap().name == 'plasma' for q in mesh)
               and [geometry(a) for a in main] == [((1, 3), (0, i)) for i in range(3)], f'useropts:{order}:{deriv}', 'user options ignored')


def check_series(rec, tag, fig, coef, nms, r, th, ph, source, span, label):
    if not rec.ok(len(fig.axes) == 3, f'panels:{tag}', f'{len(fig.axes)} panels'):
        return
    xs = [mjd(a.lines[0].get_xdata()) for a in fig.axes]
    rec.ok(all(np.array_equal(xs[0], x) for x in xs) and abs(xs[0][0]-span[0]) < 1e-5 and abs(xs[0][-1]-span[1]) < 1e-5 and np.all(np.diff(xs[0]) > 0) and xs[0].size >= 100,
           f'span:{tag}', f'time axis from {xs[0][0]} to {xs[0][-1]}')
    B = ref.basis_field(nms, r, th, ph, source)
    ys = np.array([a.lines[0].get_ydata() for a in fig.axes])
    near = np.min(np.abs(xs[0][:, None] - BR[None, 1:-1]), axis=1) > 1e-3     # rounding of the axis to nanoseconds
    near &= np.arange(xs[0].size) % 7 == 0
    near[0] = near[-1] = True
    t = np.clip(xs[0], span[0], span[1])
    want = np.array([B @ coef(x) for x in t[near]]).T
    rec.close(f'val:{tag}', ys[:, near], want, 1e-6, 1e-6*(1 + np.max(np.abs(want))), what='plotted field')
    if label is not None:
        rec.ok(all(unit_text(a.get_ylabel()) == unit_text(label) for a in fig.axes), f'label:{tag}', f'axis says {fig.axes[0].get_ylabel()!r}')


def model_series(rec, order, more):
    for source, nmax, deriv, (r, th, ph) in itertools.product(('internal', 'external'), (None, 1, 3, 5), (None, 0, 1, 2), ((6371.2, 40., -75.), (7000, 90, 200))):
        m, c = basemodel(order, source=source)
        kw = {k: v for k, v in (('nmax', nmax), ('deriv', deriv)) if v is not None or r == 7000}
        tag = f'{order}:{source}:{nmax}:{deriv}:{r}'
        before = fixture.snapshot(m)
        fig = drawn(rec, tag, m.plot_timeseries, r, th, ph, **kw)
        rec.case(tag)
        if fig is None:
            continue
        k = min(nmax or 3, 3)
        d = deriv or 0
        check_series(rec, tag, fig, lambda t: coeffs_at(c, t, d)[:k*(k+2)], ref.nm_list(1, k), r, th, ph, source, (BR[0], BR[-1]), UNITS[d])
        rec.ok(fixture.snapshot(m) == before, f'mutate:{tag}', 'model modified')
    m, c = basemodel(order)
    for ext in (None, 'off', 'linear', 'spline', 'constant', True, False, 2):
        fig = drawn(rec, f'ext:{ext}', m.plot_timeseries, 6371.2, 40., 10., extrapolate=ext, titles=['x', 'y', 'z'], ylabel='Y', layout=(1, 3), color='m')
        check_series(rec, f'ext:{order}:{ext}', fig, lambda t: coeffs_at(c, t, 0), ref.nm_list(1, 3), 6371.2, 40., 10., 'internal', (BR[0], BR[-1]), 'Y')
        rec.ok([a.get_title() for a in fig.axes] == ['x', 'y', 'z'] and all(a.lines[0].get_color() == 'm' for a in fig.axes), f'useropts:{order}:{ext}', 'user options ignored')
        rec.case((order, 'ext', ext))


def model_spectrum(rec, order):
    for source, nmax, deriv, radius in itertools.product(('internal', 'external'), (None, 1, 2, 3), (None, 0, 1, 2), (None, 6371.2, 3485.)):
        m, c = basemodel(order, source=source)
        kw = {k: v for k, v in (('nmax', nmax), ('deriv', deriv), ('radius', radius)) if v is not None or order == 2}
        for t in (-350.5, BR[-1]):
            tag = f'{order}:{source}:{nmax}:{deriv}:{radius}:{t}'
            before = fixture.snapshot(m)
            fig = drawn(rec, tag, m.plot_power_spectrum, t, **kw)
            rec.case(tag)
            if fig is None:
                continue
            k, d = nmax or 3, deriv or 0
            g = coeffs_at(c, t, d)
            r = radius or 6371.2
            want = []
            for n in range(1, k+1):
                s = np.sum(g[n*n-1:(n+1)**2-1]**2)
                want.append((n+1)*s*(6371.2/r)**(2*n+4) if source == 'internal' else n*s*(6371.2/r)**(-2*n+2))
            want = np.array(want)
            ax = fig.axes[0]
            rec.close(f'x:{tag}', np.asarray(ax.lines[0].get_xdata(), float), np.arange(1., k+1), 0, 0, what='degrees')
            rec.close(f'y:{tag}', np.asarray(ax.lines[0].get_ydata(), float), np.where(want == 0, np.nan, want), 1e-9, 0, what='spectrum')
            rec.ok(unit_text(ax.get_ylabel()) == unit_text(f'({UNITS[d]})$^2$'), f'label:{tag}', f'axis says {ax.get_ylabel()!r}')
            rec.ok(fixture.snapshot(m) == before, f'mutate:{tag}', 'model modified')


def chaos_static(rec):
    m = fixture.model()
    c = fixture.kwargs()['coeffs_static'].ravel()
    for nmax in (None, 4, 5, 9):
        for kw in ({}, dict(vmax=50., vmin=-20., cmap='viridis'), dict(titles=['a', 'b', 'c'], label='L')):
            tag = f'{nmax}:{sorted(kw)}'
            with warnings.catch_warnings(record=True) as log:
                warnings.simplefilter('always')
                fig = drawn(rec, tag, m.plot_maps_static, 6371.2, nmax=nmax, **kw)
            rec.case(tag)
            k = min(nmax or 5, 5)
            r = check_map(rec, tag, fig, [c[:k*(k+2)]], [ref.nm_list(1, k)], [6371.2], ['internal'], kw.get('label', 'nT'))
            rec.ok((nmax == 9) == any(fault.kind(w.message) == 'degree' for w in log if w.category is UserWarning), f'warn:{tag}', 'warning about the degree')
            if r:
                want = (kw.get('vmin', -200), kw.get('vmax', 200))
                rec.ok(all(q[0].get_clim() == want and q[0].get_cmap().name == kw.get('cmap', 'nio') for q in r[1]), f'limits:{tag}', 'limits or colours')


def chaos_external(rec, reference):
    fixture.use_rc(rec.tmp('rc.h5'))
    m = fixture.model()
    for source, nmax in itertools.product((None, 'all', 'external', 'internal', 'Internal'), (None, 1, 2)):
        t, r = 37.25, 6800.
        tag = f'{reference}:{source}:{nmax}'
        before = fixture.snapshot(m)
        kw = {k: v for k, v in (('nmax', nmax), ('reference', reference), ('source', source)) if v is not None}
        fig = drawn(rec, tag, m.plot_maps_external, t, r, **kw)
        rec.case(tag)
        if fig is None:
            continue
        coeffs, src = [], []
        k = nmax or 2
        for which in ('gsm', 'sm'):
            if (reference or 'all').lower() in ('all', which):
                for s in ('external', 'internal'):
                    if (source or 'all').lower() in ('all', s):
                        coeffs.append(getattr(m, f'synth_coeffs_{which}')(t, source=s)[:k*(k+2)])
                        src.append(s)
        check_map(rec, tag, fig, coeffs, [ref.nm_list(1, k)]*len(coeffs), [r]*len(coeffs), src, 'nT')
        rec.ok(fixture.snapshot(m) == before, f'mutate:{tag}', 'model modified')
    rec.raises(f'badref:{reference}', ValueError, m.plot_maps_external, 0., 7000., reference='geo', what='unknown reference')
    rec.raises(f'badsrc:{reference}', ValueError, m.plot_maps_external, 0., 7000., reference=reference, source='both', what='unknown source')


def chaos_tdep(rec):
    k = fixture.kwargs()
    c, br = k['coeffs_tdep'], k['breaks']
    for nmax, deriv in itertools.product((None, 2, 3), (None, 0, 1, 3)):
        m = fixture.model()
        d, n = deriv or 0, nmax or 3
        nms = ref.nm_list(1, n)

        def coef(t):
            return ref.pp_eval(c, br, t, d)[:n*(n+2)]*365.25**d
        fig = drawn(rec, 'x', m.plot_maps_tdep, 12.5, 6371.2, nmax=nmax, deriv=deriv)
        check_map(rec, f'maps:{nmax}:{deriv}', fig, [coef(12.5)], [nms], [6371.2], ['internal'], UNITS[d])
        fig = drawn(rec, 'x', m.plot_timeseries_tdep, 6500., 33., 44., nmax=nmax, deriv=deriv)
        if rec.ok(len(fig.axes) == 3, f'ts:{nmax}:{deriv}', 'panels'):
            x = mjd(fig.axes[0].lines[0].get_xdata())
            rec.ok(abs(x[0]-br[0]) < 1e-5 and abs(x[-1]-br[-1]) < 1e-5, f'span:{nmax}:{deriv}', 'time axis')
            i = np.arange(3, x.size-1, 31)
            i = i[np.abs(x[i]-br[1]) > 1e-3]
            B = ref.basis_field(nms, 6500., 33., 44.)
            want = np.array([B @ coef(a) for a in x[i]]).T
            got = np.array([a.lines[0].get_ydata() for a in fig.axes])[:, i]
            rec.close(f'tsval:{nmax}:{deriv}', got, want, 1e-6, 1e-6*(1+np.abs(want).max()), what='plotted field')
        rec.case((nmax, deriv))


def missing(rec):
    import matplotlib.pyplot as plt
    from chaosmagpy.chaos import CHAOS
    m = CHAOS(breaks=np.array([0., 1.]))
    for fn, a in ((m.plot_maps_tdep, (0., 7000.)), (m.plot_timeseries_tdep, (7000., 1., 2.)), (m.plot_maps_static, (7000.,)), (m.plot_maps_external, (0., 7000.))):
        plt.close('all')
        rec.raises(f'{fn.__name__}', ValueError, fn, *a, what=fn.__name__)
        rec.ok(not plt.get_fignums(), f'fig:{fn.__name__}', 'a figure was drawn although the part is missing')
        rec.case(fn.__name__)
