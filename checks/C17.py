"""C17: RC index files are read, converted and interpolated faithfully."""
import contextlib
import io
import itertools
import os
import warnings
import numpy as np
from mc import ref, fixture

PROPERTY, LEVEL = 'C17', 'exploration'
RULE = ('every combination of number of rows, number layout, white space, line ends, comments, empty lines, flags and date parsing up to the bound, read and converted to HDF5 and compared '
        'value by value; fields from both formats and from the reference interpolant for all sources and times at, between and beyond the rows; a fault injected into every '
        'single step of a conversion (reading, opening, each data set, closing)')
ASSUMPTIONS = ['flags are single characters, as in the distributed files', 'values may differ from the correctly rounded ones by one unit in the last place (pandas number parser)']
COLS = ('time', 'RC', 'RC_e', 'RC_i')


def tasks(tier):
    deep = tier == 'thorough'
    out = [('layout', dict(rows=n, deep=deep)) for n in (1, 2, 3, 5, 8, 24)] + [('fields', dict(kind=k)) for k in ('dat', 'h5', 'converted')]
    out += [('faults', dict(rows=n)) for n in (1, 4)] + [('bad', {}), ('values', {}), ('gaps', {}), ('overwrite', {}), ('full', {})]
    out += [('rows', dict(sizes=[2, 3, 4, 5, 6, 25, 99, 100, 101, 366])), ('rows', dict(sizes=[1000, 1001, 4097, 8784])), ('rows', dict(sizes=[26280] if not deep else [26280, 100003, 240000]))]
    return out


def table(n, seed=3):
    t = np.cumsum(np.round(np.abs(ref.lcg(n, seed, 0.01, 2)), 6)) - 366.2
    v = np.round(ref.lcg(3*n, seed+1, -250, 60), 2).reshape(n, 3)
    return np.column_stack([t, v]), [('D', 'P', 'Q')[(i*7) % 3] for i in range(n)]


FMT = ('{:12.6f} {:9.2f} {:9.2f} {:9.2f}  {}', '{:.17g}\t{:.17g}\t{:.17g}\t{:.17g}\t{}', '   {:.10e}   {:+.3e} {:.3E}     {:.5f} {}  ')


def write(path, tab, flags, fmt=0, eol='\n', comments=0, empty=False, last=True):
    rows = [FMT[fmt].format(*r, f) for r, f in zip(tab, flags)]
    out = []
    if comments:
        out += ['# RC-index 1 2 3 4 D', '#', '   # time   RC  RC_e RC_i flag']
    for i, r in enumerate(rows):
        if comments == 2 and i % 2:
            out.append('# 99 99 99 99 D')
            r += ' # remark'
        if empty and i % 3 == 0:
            out.append('')
        out.append(r)
    with open(path, 'w', newline='') as f:
        f.write(eol.join(out) + (eol if last else ''))
    want = np.array([[float(x) for x in r.split('#')[0].split()[:4]] for r in rows])
    return want


def convert(path, src):
    """Output, warnings and exception of a conversion."""
    from chaosmagpy import data_utils as du
    err = None
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()) as out:
        warnings.simplefilter('always')
        try:
            du.save_RC_h5file(path, read_from=src)
        except Exception as e:
            err = e
    return out.getvalue(), [str(x.message) for x in w], err


def layout(rec, rows, deep):
    import h5py
    from chaosmagpy import data_utils as du
    tab, flags = table(rows)
    for fmt, eol, com, empty, last, fl in itertools.product((0, 1, 2), ('\n', '\r\n'), (0, 1, 2), (False, True), (True, False), (0, 1)):
        fid = f'lay:{rows}:{fmt}:{eol!r}:{com}:{empty}:{last}:{fl}'
        src, dst = rec.tmp('rc.dat'), rec.tmp('rc.h5')
        f = flags if fl else ['D']*rows
        want = write(src, tab, f, fmt, eol, com, empty, last)
        df = du.load_RC_datfile(src)
        if not rec.ok(list(df.columns) == [*COLS, 'flag'] and len(df) == rows, fid, f'columns {list(df.columns)}, {len(df)} rows'):
            continue
        for i, c in enumerate(COLS):
            rec.ok(df[c].dtype == np.float64, f'{fid}:{c}:type', str(df[c].dtype))
            rec.close(f'{fid}:{c}', df[c].values, want[:, i], 5e-16, 1e-300, what=c)
        rec.ok(list(df['flag'].astype(str)) == f, f'{fid}:flag', f'{list(df["flag"])}')
        for p in (False, True):
            d = du.load_RC_datfile(src, parse_dates=p)
            rec.ok(list(d.columns) == ([*COLS[1:], 'flag'] if p else [*COLS, 'flag']), f'{fid}:{p}:cols', str(list(d.columns)))
            if p:
                days = (d.index.values - np.datetime64('2000-01-01', 'ns'))/np.timedelta64(1, 'ns')/86400e9
                rec.close(f'{fid}:dates', days, want[:, 0], 0, 2e-11, what='dates')
            for i, c in enumerate(COLS[1:]):
                rec.close(f'{fid}:{p}:{c}', d[c].values, want[:, i+1], 5e-16, 1e-300, what=c)
        out, w, err = convert(dst, src)
        if not rec.ok(err is None and not w, f'{fid}:conv', f'{out!r} {w} {err!r}'):
            continue
        with h5py.File(dst, 'r') as h:
            rec.ok(sorted(h) == sorted([*COLS, 'flag']), f'{fid}:keys', str(list(h)))
            for c in COLS:
                rec.close(f'{fid}:h5:{c}', h[c][()], df[c].values, 0, 0, what=f'{c} in HDF5')
            rec.ok([x.decode() for x in h['flag'][()]] == f, f'{fid}:h5:flag', str(h['flag'][()]))
        rec.case(fid)


def rows(rec, sizes):
    """Files of many rows; rows out of order and repeated times: every row is kept, in the order of the file."""
    import h5py
    from chaosmagpy import basicConfig, data_utils as du
    from checks.C12 import expected_sm
    m, k = fixture.model(), fixture.kwargs()
    for n in sizes:
        for order in ('sorted', 'reversed', 'mixed', 'twice', 'constant'):
            t = np.round(np.arange(n)/24. - 300., 6)
            t = {'sorted': t, 'reversed': t[::-1], 'mixed': np.roll(t, n//3)[::-1] + 0, 'twice': t[np.arange(n)//2], 'constant': t*0 + t[0]}[order]
            tab = np.column_stack([t, np.round(ref.lcg(3*n, n, -250, 60), 2).reshape(n, 3)])
            flags = [('D', 'P', 'Q')[(i*7) % 3] for i in range(n)]
            fid = f'rows:{n}:{order}'
            rec.case(fid, n=n)
            src, dst = rec.tmp('rc.dat'), rec.tmp('rc.h5')
            want = write(src, tab, flags, 0, comments=n % 2)
            df = du.load_RC_datfile(src)
            dd = du.load_RC_datfile(src, parse_dates=True)
            if not rec.ok(len(df) == len(dd) == n, fid, f'{len(df)} and {len(dd)} of {n} rows'):
                continue
            days = (dd.index.values - np.datetime64('2000-01-01', 'ns'))/np.timedelta64(1, 'ns')/86400e9
            rec.close(f'{fid}:dates', days, want[:, 0], 0, 2e-11, what='dates')
            for i, c in enumerate(COLS):
                rec.close(f'{fid}:{c}', df[c].values, want[:, i], 5e-16, 1e-300, what=c)
                if i:
                    rec.close(f'{fid}:d:{c}', dd[c].values, want[:, i], 5e-16, 1e-300, what=c)
            rec.ok(list(df['flag'].astype(str)) == flags == list(dd['flag'].astype(str)), f'{fid}:flag', 'flags')
            out, w, err = convert(dst, src)
            if not rec.ok(err is None and not w, f'{fid}:conv', f'{out!r} {w} {err!r}'):
                continue
            with h5py.File(dst, 'r') as h:
                for i, c in enumerate(COLS):
                    rec.close(f'{fid}:h5:{c}', h[c][()], want[:, i], 5e-16, 1e-300, what=f'{c} in HDF5')
                rec.ok([x.decode() for x in h['flag'][()]] == flags, f'{fid}:h5:flag', 'flags')
            if order == 'sorted':
                for f in (src, dst):
                    basicConfig['file.RC_index'] = f
                    ix = sorted({0, 1, n//3, n//2, n-2, n-1} & set(range(n)))
                    ts = np.array([want[i, 0] for i in ix] + [want[i, 0] + 0.3*(want[i+1, 0] - want[i, 0]) for i in ix[:-1]])
                    for s, col in (('external', 2), ('internal', 3)):
                        rc = np.interp(ts, want[:, 0], want[:, col])
                        rec.close(f'{fid}:{s}:{f[-3:]}', m.synth_coeffs_sm(ts, source=s), [expected_sm(a, s, k['coeffs_sm'], b, k) for a, b in zip(ts, rc)], 1e-9, 1e-9, what='SM coefficients with a long index')


def fields(rec, kind):
    """Gauss coefficients and fields with the RC index of a text file, an HDF5 file and a converted file."""
    from chaosmagpy import basicConfig, data_utils as du
    from checks.C12 import expected_sm
    path = rec.tmp('RC.' + ('dat' if kind == 'dat' else 'h5'))
    if kind == 'converted':
        du.save_RC_h5file(path, read_from=fixture.rc_file(rec.tmp('a.dat'), 'dat'))
        basicConfig['file.RC_index'] = path
    else:
        fixture.use_rc(path, kind)
    m = fixture.model()
    data = open(path, 'rb').read()
    T = fixture.RC_TIME
    ts = sorted({*T, *(T[:-1] + 0.31*np.diff(T)), *(T[1:] - 1e-3)})
    ts = np.array([t for t in ts if -490 <= t <= 380])
    for s in ('external', 'internal'):
        got = m.synth_coeffs_sm(ts, source=s)
        for t, g in zip(ts, got):
            want = expected_sm(t, s, fixture.kwargs()['coeffs_sm'], fixture.rc_value(t, s), fixture.kwargs())
            rec.close(f'sm:{kind}:{s}:{t}', g, want, 1e-9, 1e-9, what=f'SM coefficients at {t}')
            rec.case((kind, s, t))
        for t in (T[0]-1e-3, T[-1]+1e-3, -1e5, 1e5):
            rec.raises(f'out:{kind}:{s}:{t}', ValueError, m.synth_coeffs_sm, t, source=s, what=f'RC at {t}')
            rec.raises(f'outs:{kind}:{s}:{t}', ValueError, m.synth_coeffs_sm, np.array([0., t]), source=s, what=f'RC at {t}')
            m.synth_coeffs_sm(t, source=s, rc=3.)
        for t in (T[0], T[-1]):     # exactly at the ends
            want = expected_sm(t, s, fixture.kwargs()['coeffs_sm'], fixture.rc_value(t, s), fixture.kwargs())
            rec.close(f'end:{kind}:{s}:{t}', m.synth_coeffs_sm(t, source=s), want, 1e-9, 1e-9, what=f'SM coefficients at the end {t}')
    rec.ok(open(path, 'rb').read() == data, f'file:{kind}', 'RC file changed')
    # replaced file is read anew
    if kind != 'converted':
        other = rec.tmp('RC2.' + ('dat' if kind == 'dat' else 'h5'))
        a = m.synth_coeffs_sm(0.25)
        fixture.RC_E = fixture.RC_E*2 + 1
        fixture.rc_file(other, kind)
        os.replace(other, path)
        b = m.synth_coeffs_sm(0.25)
        want = expected_sm(0.25, 'external', fixture.kwargs()['coeffs_sm'], fixture.rc_value(0.25, 'external'), fixture.kwargs())
        rec.close(f'anew:{kind}', b, want, 1e-9, 1e-9, what='replaced RC file')
        rec.ok(not np.array_equal(a, b), f'anew2:{kind}', 'same values')


def full(rec):
    """The disk is full after any number of bytes."""
    from mc import fault
    from chaosmagpy import data_utils as du
    src = rec.tmp('rc.dat')
    write(src, *table(5))

    def go():
        du.save_RC_h5file(dst, read_from=src)
    dst = rec.tmp('o.h5')
    r = fault.limited(None, go)
    size = os.path.getsize(dst)
    rec.ok(r['err'] is None and not r['warn'], 'full:none', str(r))
    for n in [*range(0, size, 61), size-1]:
        dst = rec.tmp('o.h5')
        r = fault.limited(n, go)     # the HDF5 library may abort the process: not silent either
        rec.ok((r['warn'] or r['err']) and 'Success' not in r['out'], f'full:{n}', f'disk full after {n} of {size} bytes: {r}')
        rec.case(f'full:{n}')


class Boom(Exception):
    pass


def faults(rec, rows):
    """Each single step of the conversion fails."""
    import h5py
    import pandas
    from chaosmagpy import data_utils as du
    src = rec.tmp('rc.dat')
    tab, flags = table(rows)
    write(src, tab, flags)
    steps = [('pandas', pandas, 'read_csv'), ('file', h5py.File, '__init__'), ('dataset', h5py.Group, 'create_dataset'), ('flag', h5py.Dataset, '__setitem__'),
             ('close', h5py.File, 'close')]
    total = 0
    for name, owner, attr in steps:
        for exc in (Boom('x'), OSError(28, 'No space left on device'), ValueError('v'), MemoryError()):
            k = 0
            while True:
                real, count = getattr(owner, attr), [0]

                def step(*a, **kw):
                    count[0] += 1
                    if count[0] == k+1:
                        raise exc
                    return real(*a, **kw)
                setattr(owner, attr, step)
                try:
                    out, w, err = convert(rec.tmp('o.h5'), src)
                finally:
                    setattr(owner, attr, real)
                hit = count[0] > k
                fid = f'fault:{rows}:{name}:{k}:{type(exc).__name__}'
                if not hit:
                    rec.ok(err is None and not w, f'{fid}:none', f'{w} {err!r}')
                    break
                rec.ok(err is not None or w, fid, f'failure at step {name} {k} passed silently')
                rec.ok(err is None, f'{fid}:exc', f'raises {err!r} instead of a warning')
                rec.ok('Success' not in out, f'{fid}:out', f'reports {out!r}')
                rec.case(fid)
                k += 1
            total += k
    rec.ok(total > 0, f'fault:{rows}', 'no step could be made to fail')


def gaps(rec):
    """Missing values are kept in their place."""
    import h5py
    from chaosmagpy import data_utils as du
    for n in (1, 3, 6):
        for col, row in itertools.product((1, 2, 3, (1, 2, 3), (2, 3)), sorted({0, n//2, n-1})):
            for mark in ('NaN', 'nan'):
                tab, flags = table(n)
                tab[row, list(np.atleast_1d(col))] = np.nan
                src, dst = rec.tmp('rc.dat'), rec.tmp('rc.h5')
                want = write(src, tab, flags)
                text = open(src).read().replace('nan', mark)
                open(src, 'w').write(text)
                fid = f'gap:{n}:{col}:{row}:{mark}'
                df = du.load_RC_datfile(src)
                rec.ok(len(df) == n, fid, f'{len(df)} of {n} rows')
                out, w, err = convert(dst, src)
                if rec.ok(err is None and not w, f'{fid}:conv', f'{out!r} {w} {err!r}'):
                    with h5py.File(dst, 'r') as h:
                        for i, c in enumerate(COLS):
                            if rec.ok(h[c].shape == (n,), f'{fid}:{c}:n', f'{h[c].shape} of {n} rows'):
                                rec.close(f'{fid}:{c}', np.nan_to_num(h[c][()], nan=1e9), np.nan_to_num(want[:, i], nan=1e9), 5e-16, 1e-300, what=c)
                        rec.ok([x.decode() for x in h['flag'][()]] == flags, f'{fid}:flag', 'flags')
                rec.case(fid)


def bad(rec):
    """Files that are no RC index files, and places that cannot be written."""
    src = rec.tmp('rc.dat')
    tab, flags = table(4)
    write(src, tab, flags)
    good = open(src).read()
    for i, text in enumerate((good.replace('D', 'D', 1).replace(good.split()[1], 'abc', 1), 'no index\n', '<html><body>not found</body></html>\n', '\x00\x01', 'time RC RC_e RC_i flag\n' + good)):
        p = rec.tmp(f'bad{i}.dat')
        open(p, 'w').write(text)
        out, w, err = convert(rec.tmp('o.h5'), p)
        rec.ok((w or err) and 'Success' not in out, f'bad:{i}', f'{text[:40]!r} converted: {out!r}')
        rec.case(f'bad:{i}')
    d = rec.tmp('dir')
    os.mkdir(d)
    for i, (dst, s) in enumerate(((os.path.join(d, 'missing', 'x.h5'), src), (d, src), (rec.tmp('o.h5'), os.path.join(d, 'missing.dat')), (rec.tmp('o.h5'), d))):
        out, w, err = convert(dst, s)
        rec.ok(w and err is None and 'Success' not in out, f'place:{i}', f'{out!r} {w} {err!r}')
        rec.case(f'place:{i}')


def overwrite(rec):
    """An existing HDF5 file is replaced, whatever it holds."""
    import h5py
    for a, b in itertools.permutations((1, 2, 5, 9), 2):
        dst = rec.tmp('o.h5')
        for n in (a, b):
            src = rec.tmp('rc.dat')
            tab, flags = table(n, seed=n)
            want = write(src, tab, flags)
            out, w, err = convert(dst, src)
            rec.ok(not w and err is None, f'over:{a}:{b}', f'{w} {err!r}')
        with h5py.File(dst) as h:
            for i, c in enumerate(COLS):
                rec.close(f'over:{a}:{b}:{c}', h[c][()], want[:, i], 5e-16, 1e-300, what=c)
            rec.ok([x.decode() for x in h['flag'][()]] == flags, f'over:{a}:{b}:flag', '')
        rec.case((a, b))


def values(rec):
    """Every number is taken as it stands, also those used elsewhere to mark gaps."""
    import h5py
    from chaosmagpy import data_utils as du
    special = [99999., 9999., 999., 99999.99, 999.9, -999., -9999., -99999., 99., -1., 0., 1e-7, -1e-12, 1e10, 123.456789012, -0.005, 88888., 1e30]
    for i, v in enumerate(special):
        for col in range(3):
            for n in (1, 4):
                tab, flags = table(n)
                tab[n//2, 1+col] = v
                for fmt in (1,):
                    path = rec.tmp('v.dat')
                    want = write(path, tab, flags, fmt)
                    fid = f'value:{v}:{col}:{n}'
                    df = du.load_RC_datfile(path)
                    rec.ok(df.shape == (n, 5), fid, f'table of shape {df.shape}')
                    if df.shape == (n, 5):
                        rec.close(fid, df[['time', 'RC', 'RC_e', 'RC_i']].values, want, 1e-15, 0, what='values')
                    out = rec.tmp('v.h5')
                    du.save_RC_h5file(out, read_from=path)
                    with h5py.File(out, 'r') as f:
                        for k, name in enumerate(('time', 'RC', 'RC_e', 'RC_i')):
                            rec.close(f'{fid}:h5:{name}', f[name][:], want[:, k], 1e-15, 0, what=f'{name} in HDF5')
                    rec.case(fid)
