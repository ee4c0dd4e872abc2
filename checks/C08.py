"""C08: B-spline and piecewise-polynomial representations agree (oracle: Cox-de Boor recursion)."""
import itertools
import numpy as np
from mc import ref

PROPERTY, LEVEL = 'C08', 'exploration'
RULE = ('a case is (order, knot vector incl. interior multiplicities, derivative, basis function, abscissa); enumerated '
        'completely; non-trivial when the reference basis value is non-zero')
ASSUMPTIONS = ['splines are linear in their coefficients, so basis functions suffice']
BR = [[0., 1.], [0., 400.], [-300., 0., 500.], [0., 1., 2., 3.], [-10., 0., 100., 130., 800.], [0., 1e-4, 0.5, 1.], [7305., 7305. + 1e-6, 7306.]]


def tasks(tier):
    return [('basis', dict(order=k, b=b, deep=tier == 'thorough')) for k in range(1, 7) for b in range(len(BR))] + [('synth', dict(order=k)) for k in range(1, 6)] + [('augment', {})] + [('large', dict(order=k)) for k in range(1, 7)] + [('many', dict(order=k)) for k in range(1, 6)]


def knotvectors(order, b, deep):
    br = BR[b]
    inner = br[1:-1]
    top = min(order, 3) if not deep else order
    for mult in itertools.product(range(1, top+1), repeat=len(inner)):
        if not deep and sum(m > 1 for m in mult) > 1:
            continue
        yield np.array([br[0]]*order + [x for x, m in zip(inner, mult) for _ in range(m)] + [br[-1]]*order)


def grid(br):
    t = set(br)
    for a, b in zip(br[:-1], br[1:]):
        t |= {a + f*(b-a) for f in (0.1, 0.5, 0.77)}
    return np.array(sorted(t))


def basis(rec, order, b, deep):
    from chaosmagpy import model_utils as mu
    from chaosmagpy.chaos import BaseModel
    br = BR[b]
    x = grid(br)
    for knots in knotvectors(order, b, deep):
        nb = knots.size - order
        full = [np.array([[ref.bspline_basis(knots, order, j, t, d) for j in range(nb)] for t in x]) for d in range(order)]
        hmin = np.min(np.diff(br))
        simple = not any((knots == t).sum() > 1 for t in br[1:-1])
        fid = f'{order}:{b}:{knots.size}:{[int((knots == t).sum()) for t in br[1:-1]]}'
        for d in range(order+2):
            C = mu.colloc_matrix(x, knots, order, deriv=d) if d else mu.colloc_matrix(x, knots, order)
            W = full[d] if d < order else np.zeros((x.size, nb))
            # derivatives at the last abscissa of a basis with zero pieces are one-sided: compare with the interior limit
            rec.bulk(W.size, np.count_nonzero(W), sample=(order, br, d))
            rec.close(f'colloc:{fid}:{d}', C, W, 1e-9, 1e-10*(order/hmin)**d, 'collocation matrix')
        rec.close(f'unity:{fid}', mu.colloc_matrix(x, knots, order).sum(axis=1), np.ones(x.size), 0, 1e-12, 'partition of unity')
        # conversion of every basis function at once, and of generic coefficients
        for coef in (np.eye(nb), ref.lcg(nb*3, order, -5, 5).reshape(nb, 3)):
            keep, kk = coef.copy(), knots.copy()
            pp, pb = mu.pp_from_bspline(coef, knots, order)
            rec.ok(np.array_equal(keep, coef) and np.array_equal(kk, knots), f'modified:{fid}', 'arguments modified')
            if not rec.ok(pp.shape == (order, len(br)-1, coef.shape[1]) and np.array_equal(pb, br), f'ppshape:{fid}', f'{pp.shape} {pb}'):
                continue
            for d in range(order):
                W = full[d] @ coef
                got = np.array([ref.pp_eval(pp, pb, t, d) for t in x])
                rec.bulk(W.size, np.count_nonzero(W))
                rec.close(f'pp:{fid}:{d}:{coef.shape[1]}', got, W, 1e-9, 1e-9*(order/hmin)**d, f'piecewise polynomial for knots {knots.tolist()}')
        # a model built from it
        c8 = ref.lcg(nb*8, order + b, -90, 90).reshape(nb, 8)
        m = BaseModel.from_bspline('m', knots, c8, order, source='external', meta={'a': 1})
        rec.ok(m.source == 'external' and m.order == order and m.name == 'm' and m.nmax == 2 and m.meta == {'a': 1} and m.pieces == len(br)-1,
               f'attr:{fid}', 'model attributes')
        for d in range(order):
            rec.close(f'model:{fid}:{d}', m.synth_coeffs(x, deriv=d), (full[d] @ c8)*365.25**d, 1e-9, 1e-8*(order*365.25/hmin)**d, 'model from B-spline')
        if simple and order <= 4:
            rec.close(f'default:{fid}', BaseModel.from_bspline('m', knots, c8, order).synth_values(x, 6500., 30., 40.),
                      np.array([ref.field(c, ref.nm_list(1, 2), 6500., 30., 40.) for c in full[0] @ c8]).T, 1e-9, 1e-7, 'default source')


def synth(rec, order):
    """synth_from_pp against the piecewise polynomial and the reference field."""
    import warnings
    from chaosmagpy import model_utils as mu
    for b in (1, 2, 4):
        br = np.array(BR[b])
        M = 15
        pp = ref.lcg(order*(br.size-1)*M, b, -9, 9).reshape(order, br.size-1, M)*np.array([300.**-(order-1-k) for k in range(order)])[:, None, None]
        x = grid(br)
        n = x.size
        r, th, ph = 6371.2 + 50.*(np.arange(n) % 4), 3. + 174.*np.arange(n)/n, -200. + 61.*np.arange(n)
        for nmax in (None, 1, 2, 3, 5):
            k = min(nmax or 3, 3)
            for source in (None, 'internal', 'external'):
                for d in [None] + list(range(order+1)):
                    C = np.array([ref.pp_eval(pp, br, t, d or 0)*365.25**(d or 0) for t in x])[:, :k*(k+2)]
                    want = np.array([ref.field(c, ref.nm_list(1, k), *p, source or 'internal') for c, p in zip(C, zip(r, th, ph))]).T
                    sc = np.abs(C).max() + 1
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter('always')
                        got = mu.synth_from_pp(br, order, pp, x, r, th, ph, nmax=nmax, source=source, deriv=d)
                    rec.bulk(3*n, np.count_nonzero(want), sample=(order, b, nmax, source, d))
                    rec.ok(bool(w) == (nmax == 5), f'warn:{nmax}', f'nmax={nmax}: {len(w)} warnings')
                    for i in range(3):
                        rec.close(f'synth:{order}:{b}:{nmax}:{source}:{d}:{i}', got[i], want[i], 1e-9, 1e-9*sc, 'synth_from_pp')
                    if source is None:
                        g = mu.synth_from_pp(br, order, pp, x[:2, None, None], 6371.2, th[:3], ph[:4], nmax=nmax, deriv=d, grid=True)
                        w3 = np.array([[[ref.field(c, ref.nm_list(1, k), 6371.2, t, p) for p in ph[:4]] for t in th[:3]] for c in C[:2]])
                        rec.close(f'grid:{order}:{b}:{nmax}:{d}', np.stack(g, axis=-1), w3, 1e-9, 1e-9*sc, 'grid')
        for t in (br[0]-1., br[-1]+1.):
            rec.ok(np.all(np.isnan(np.stack(mu.synth_from_pp(br, order, pp, np.array([t]), 6371.2, 40., 5.)))), f'outside:{order}:{b}', 'value outside the breaks')


def augment(rec):
    from chaosmagpy import model_utils as mu
    for order in range(1, 8):
        for br in BR + [[0., 1., 1., 2.], [-10., 0., 0., 0., 100., 100., 800.], [5., 5.]]:
            for conv in (list, tuple, np.array):
                k = mu.augment_breaks(conv(br), order)
                rec.case((order, tuple(br), conv.__name__))
                rec.close(f'augment:{order}:{br}', k, np.array([br[0]]*(order-1) + br + [br[-1]]*(order-1)), 0, 0, 'knots')
        rec.raises(f'augment2d:{order}', ValueError, mu.augment_breaks, np.array([[0., 1.]]), order, what='2-D breaks')


def large(rec, order):
    """Many coefficients, many pieces, many abscissae."""
    from chaosmagpy import model_utils as mu
    from chaosmagpy.chaos import BaseModel
    for pieces, sizes in ((1, (99, 100, 101, 127, 128, 129, 255, 256, 257, 399, 440)), (3, (100, 120, 195, 224, 288, 1023)), (30, (8, 120)), (99, (3,)), (100, (3,)), (101, (3, 8)), (257, (3,)), (400, (3,))):
        br = np.cumsum(1. + 0.5*np.sin(np.arange(pieces+1.)))*30.
        knots = np.concatenate([[br[0]]*(order-1), br, [br[-1]]*(order-1)])
        nb = knots.size - order
        rec.close(f'aug:{order}:{pieces}', mu.augment_breaks(br, order), knots, 0, 0, 'knots')
        x = np.unique(np.concatenate([br, br[:-1] + 0.37*np.diff(br)])) if pieces < 40 else np.concatenate([br[::9], br[:-1:5] + 0.6*np.diff(br)[::5], br[-3:]])
        x = np.concatenate([x[::2], x[1::2][::-1]])       # not sorted
        B = []
        for d in range(min(order, 3)):
            W = np.zeros((x.size, nb))
            for i, t in enumerate(x):
                p = min(np.searchsorted(br, t, side='right') - 1, pieces - 1)
                for j in range(p, p+order):       # the only functions that live there
                    W[i, j] = ref.bspline_basis(knots[j:j+order+1], order, 0, t, d, br[-1])
            B.append(W)
            rec.close(f'colloc:{order}:{pieces}:{d}', mu.colloc_matrix(x, knots, order, deriv=d), W, 1e-9, 1e-9, 'collocation matrix')
        rec.close(f'unity:{order}:{pieces}', B[0].sum(axis=1), np.ones(x.size), 0, 1e-12, 'reference')
        for M in sizes:
            c = ref.lcg(nb*M, M, -9, 9).reshape(nb, M)
            pp, pb = mu.pp_from_bspline(c, knots, order)
            rec.case((order, pieces, M), n=x.size*M)
            if not rec.ok(pp.shape == (order, pieces, M) and np.array_equal(pb, br), f'large:{order}:{pieces}:{M}', f'{pp.shape}'):
                continue
            for d, W in enumerate(B):
                got = np.array([ref.pp_eval(pp, pb, t, d) for t in x])
                rec.close(f'large:{order}:{pieces}:{M}:{d}', got, W @ c, 1e-8, 1e-8, 'piecewise polynomial of many coefficients')
            n = int(np.sqrt(M+1)) - 1
            if n*(n+2) == M:
                m = BaseModel.from_bspline('m', knots, c, order)
                for d, W in enumerate(B):
                    rec.close(f'largem:{order}:{pieces}:{M}:{d}', m.synth_coeffs(x, deriv=d), (W @ c)*365.25**d, 1e-8, 1e-8*365.25**d, 'model of many coefficients')
    # many abscissae
    br = np.array(BR[4])
    knots = mu.augment_breaks(br, order)
    nb = knots.size - order
    base = grid(br)
    one = np.array([[ref.bspline_basis(knots, order, j, t, 0, br[-1]) for j in range(nb)] for t in base])
    for n in (99, 100, 101, 999, 1000, 1001, 1025, 4097, 10007):
        ix = np.arange(n)*7 % base.size
        rec.close(f'many:{order}:{n}', mu.colloc_matrix(base[ix], knots, order), one[ix], 1e-9, 1e-10, 'collocation matrix of many abscissae')
        rec.case((order, n), n=n)


def many(rec, order):
    """Many points of evaluation."""
    from chaosmagpy import model_utils as mu
    from mc.large import tiled, forms
    br = np.array([0., 1., 2.5, 4.])
    knots = mu.augment_breaks(br, order)
    c = ref.lcg((knots.size-order)*8, 1, -9, 9).reshape(-1, 8)
    pp, b = mu.pp_from_bspline(c, knots, order)
    t = np.array([0., 0.3, 1., 1.7, 2.5, 3.9, 4.])
    r, th, ph = 6400. + 100*np.arange(7.), np.array([0., 10., 90., 143.3, 180., 77., 50.]), np.array([0., -100., 400., 33., 1., 2., 180.])
    for d in (0, 1):
        forms(rec, f'coll:{order}:{d}', lambda x: mu.colloc_matrix(x, knots, order, deriv=d), (t,), flat=True)
        tiled(rec, f'coll:{order}:{d}', lambda x: mu.colloc_matrix(x.ravel(), knots, order, deriv=d), (t,), tol=1e-12, every=False)
        tiled(rec, f'pp:{order}:{d}', lambda *a: tuple(mu.synth_from_pp(b, order, pp, *a, deriv=d)), (t, r, th, ph), sizes=(1001, 4097, 20000), tol=1e-11)
    for v, dim in itertools.product((1., -3.5, 1e6, 1e-6, 7), (1, 3)):
        x = np.full((knots.size-order, dim), v)
        cc, bb = mu.pp_from_bspline(x, knots, order)
        want = np.zeros(cc.shape)
        want[-1] = v
        rec.close(f'constant:{order}:{v}:{dim}', cc, want, 1e-11, 1e-11*abs(v), 'equal spline coefficients give a constant')
        rec.close(f'scaled:{order}:{v}:{dim}', mu.pp_from_bspline(v*c, knots, order)[0], v*pp, 1e-11, 1e-11*abs(v)*np.max(np.abs(pp)), 'scaled spline coefficients')
        rec.case(('constant', order, v, dim))
    i = np.round(c).astype(int)
    rec.close(f'ints:{order}', mu.pp_from_bspline(i, knots, order)[0], mu.pp_from_bspline(i.astype(float), knots, order)[0], 1e-13, 1e-13, 'integer spline coefficients')
    K = (knots*2).astype(int)
    rec.close(f'intknots:{order}', mu.pp_from_bspline(c, K, order)[0], mu.pp_from_bspline(c, K.astype(float), order)[0], 1e-13, 1e-13, 'integer knots')
    rec.close(f'intcoll:{order}', mu.colloc_matrix(np.arange(0, 9), K, order), mu.colloc_matrix(np.arange(0., 9.), K.astype(float), order), 1e-13, 1e-13, 'integer knots and points')
    for s in (2**18, -2**20):        # the same spline at another epoch
        for d in (0, 1):
            rec.close(f'epoch:{order}:{s}:{d}', mu.colloc_matrix(t + s, knots + s, order, deriv=d), mu.colloc_matrix(t, knots, order, deriv=d), 0, 1e-7, 'collocation far from the origin')
            g, w = mu.synth_from_pp(b + s, order, pp, t + s, r, th, ph, deriv=d), mu.synth_from_pp(b, order, pp, t, r, th, ph, deriv=d)
            for x, y in zip(g, w):
                rec.close(f'epochpp:{order}:{s}:{d}', x, y, 0, 1e-7*max(1., np.max(np.abs(y))), 'field far from the origin')
        rec.close(f'epochc:{order}:{s}', mu.pp_from_bspline(c, knots + s, order)[0], pp, 0, 1e-6*np.max(np.abs(pp)), 'polynomials far from the origin')
        rec.case(('epoch', order, s))
