"""C20: configuration contexts always undo themselves and govern the computations."""
import contextlib
import itertools
import os
import numpy as np
from checks.C19 import World, setup
from mc import fixture, ref

PROPERTY, LEVEL = 'C20', 'model_checking'
RULE = ('every well-nested program up to the depth bound over context entries (valid and refused values, five settings), exits (normal, by '
        'exception, by return, by closing a generator), assignments, resets, full resets and in-place edits, run on a freshly executed '
        'config module with all settings compared with a stack machine after every step; and every setting x every computation that '
        'documents its use x exit mode, with the value inside compared with an independent evaluation for that setting.')
ASSUMPTIONS = ['contexts are left in reverse order of entry, as the with statement does']


def ops():
    enter = [('enter', 'params.r_surf', '8.25'), ('enter', 'params.r_surf', 'abc'), ('enter', 'params.dipole', [1., 2., 3.]),
             ('enter', 'params.dipole', [1., 2.]), ('enter', 'params.ellipsoid', (2., 1.)), ('enter', 'file.GSM_spectrum', '@a'),
             ('enter', 'file.GSM_spectrum', '@missing'), ('enter', 'params.CHAOS_version', '8.1'), ('enter', 'nokey', 1.)]
    leave = [('exit', 'normal'), ('exit', 'raise'), ('exit', 'base')]
    other = [('set', 'params.r_surf', 5.), ('set', 'params.dipole', [4., 5., 6.]), ('set', 'params.r_surf', 'abc'), ('edit', 'params.dipole'),
             ('full',), ('reset', 'params.dipole'), ('vanish',)]
    return enter + leave + other


class Stack(World):
    """Configuration with a stack of open contexts."""
    def __init__(self, d):
        super().__init__(d)
        self.stack = []

    def step(self, op):
        if op[0] == 'enter':
            _, key, v = op
            bad = key not in self.model or repr(v) in ("'abc'", '[1.0, 2.0]', "'@missing'")
            old = self.model.get(key)
            v = self.concrete(v)
            cm = self.cfg.context(key, v)
            try:
                cm.__enter__()
                err = None
            except Exception as e:
                err = e
            if (err is not None) != bad:
                return f'entering {op[1:]} ' + (f'raised {err!r}' if err is not None else 'was accepted')
            if not bad:
                self.stack.append((key, old, cm))
                self.model[key] = self.convert(key, v)
            return self.compare()
        if op[0] == 'exit':
            if not self.stack:
                return None
            key, old, cm = self.stack.pop()
            e = {'normal': None, 'raise': ValueError('x'), 'base': KeyboardInterrupt()}[op[1]]
            try:
                swallowed = cm.__exit__(type(e) if e else None, e, None)
                if e is not None and swallowed:
                    return 'the context swallowed the exception'
            except BaseException as got:
                if got is not e:
                    return f'leaving raised {got!r}'
            self.model[key] = old
            return self.compare()
        if op[0] == 'vanish':   # the file set before or inside the context disappears meanwhile
            f = os.path.join(self.dir, 'a')
            if os.path.exists(f):
                os.remove(f)
            return self.compare()
        return super().step(op)

    def canon(self):
        return super().canon(), tuple((k, repr(o)) for k, o, _ in self.stack), os.path.exists(os.path.join(self.dir, 'a'))


def tasks(tier):
    n = len(ops())
    t = [('programs', dict(first=i, L=6 if tier == 'thorough' else 5)) for i in range(n)]
    return t + [('syntax', {})] + [('governs', dict(name=k)) for k in GOVERNS]


def programs(rec, first, L):
    """Depth-first over the real states: a prefix that reaches a known (state, remaining depth) is not extended again."""
    d = setup(rec)
    alphabet = ops()
    f = os.path.join(d, 'a')
    seen = {}

    def explore(prefix):
        open(f, 'w').write('x')
        w = Stack(d)
        msg = None
        for op in prefix:
            if op[0] == 'enter' and op[2] == '@a' and not os.path.exists(f):
                open(f, 'w').write('x')
            msg = w.step(op)
            rec.step()
            if msg:
                break
        if msg is None and w.stack:   # finally leave everything: back to what the innermost assignments say
            depth = len(w.stack)
            for _ in range(depth):
                msg = w.step(('exit', 'normal'))
                rec.step()
                if msg:
                    break
        rec.trace(1, sample=prefix)
        if msg:
            rec.fail('program:' + '>'.join('.'.join(map(str, o)) for o in prefix)[:300], f'{prefix}: {msg}')
            return False
        return True

    def walk(prefix):
        # state of the model only (cheap): replay without the real code is not needed, explore() returns success
        if not explore(prefix):
            return
        w = Shadow(prefix)
        key = w.key()
        rec.state(key)
        left = L - len(prefix)
        if seen.get(key, -1) >= left or left == 0:
            return
        seen[key] = left
        for op in alphabet:
            if op[0] == 'exit' and not w.stack:
                continue
            walk(prefix + (op,))
    walk((alphabet[first],))


class Shadow:
    """Abstract state after a program, for duplicate detection: values and open contexts."""
    def __init__(self, prefix):
        self.v = {}
        self.stack = []
        for op in prefix:
            k = op[1] if len(op) > 1 else None
            if op[0] == 'enter' and repr(op[2]) not in ("'abc'", '[1.0, 2.0]', "'@missing'") and k != 'nokey':
                self.stack.append((k, self.v.get(k)))
                self.v[k] = repr(op[2])
            elif op[0] == 'exit' and self.stack:
                k, o = self.stack.pop()
                self.v[k] = o
            elif op[0] == 'set' and op[2] != 'abc':
                self.v[k] = repr(op[2])
            elif op[0] == 'edit':
                self.v[k] = f'{self.v.get(k)}+1'
            elif op[0] == 'full':
                self.v = {}
            elif op[0] == 'reset':
                self.v[k] = None
            elif op[0] == 'vanish':
                self.v['vanish'] = '1'

    def key(self):
        return tuple(sorted((k, v) for k, v in self.v.items() if v is not None)), tuple(self.stack)


def syntax(rec):
    """The with statement itself: every nesting of three contexts x every way of leaving at every level."""
    from chaosmagpy import basicConfig as cfg
    keys = [('params.r_surf', 12.), ('params.dipole', [1., 2., 3.]), ('params.r_surf', 13.), ('file.GSM_spectrum', None)]
    start = fixture.snapshot(dict(cfg))

    class Stop(Exception):
        pass

    def by_return(k, v, inner):
        with cfg.context(k, v):
            inner()
            return 1

    def by_raise(k, v, inner):
        try:
            with cfg.context(k, v):
                inner()
                raise Stop
        except Stop:
            pass

    def by_break(k, v, inner):
        for _ in range(2):
            with cfg.context(k, v):
                inner()
                break

    def by_generator(k, v, inner):
        def gen():
            with cfg.context(k, v):
                inner()
                yield 1
                yield 2
        g = gen()
        next(g)
        g.close()

    def by_decorator(k, v, inner):
        @cfg.context(k, v)
        def f():
            inner()
        f()

    def by_stack(k, v, inner):
        with contextlib.ExitStack() as s:
            s.enter_context(cfg.context(k, v))
            inner()

    def by_fall(k, v, inner):
        with cfg.context(k, v):
            inner()

    modes = [by_fall, by_return, by_raise, by_break, by_generator, by_decorator, by_stack]
    for ks in itertools.permutations(range(len(keys)), 3):
        for ms in itertools.product(modes, repeat=3):
            name = '>'.join(f'{keys[k][0]}/{m.__name__}' for k, m in zip(ks, ms))

            def level(i):
                if i == 3:
                    return
                k, v = keys[ks[i]]
                before = fixture.snapshot(dict(cfg))

                def inside():
                    rec.ok(np.array_equal(cfg[k], v), f'inside:{name}', f'{name}: {k} is {cfg[k]!r} inside')
                    level(i+1)
                    rec.ok(np.array_equal(cfg[k], v), f'back:{name}', f'{name}: {k} is {cfg[k]!r} after the inner context')
                ms[i](k, v, inside)
                rec.step(2)
                rec.ok(fixture.snapshot(dict(cfg)) == before, f'after:{name}', f'{name}: settings differ after leaving level {i}')
            level(0)
            rec.trace(1, sample=name)
            rec.state((name,))
            if not rec.ok(fixture.snapshot(dict(cfg)) == start, f'end:{name}', f'{name}: settings changed'):
                return


def modes(cfg, key, value, f):
    """Value of f computed inside a context, for every way of leaving it."""
    with cfg.context(key, value):
        a = f()
    try:
        with cfg.context(key, value):
            b = f()
            raise RuntimeError
    except RuntimeError:
        pass

    def g():
        with cfg.context(key, value):
            return f()
    return [a, b, g()]


def governs(rec, name):
    GOVERNS[name](rec)


def check(rec, fid, key, values, compute, want):
    """compute() inside a context equals want(value); outside it equals want(current)."""
    from chaosmagpy import basicConfig as cfg
    outside = cfg[key]
    for v in values:
        for i, got in enumerate(modes(cfg, key, v, compute)):
            rec.step(3)
            rec.close(f'{fid}:{v!r}:{i}', got, want(v), rtol=1e-9, atol=1e-9, what=f'{fid} with {key}={v!r} (exit mode {i})')
        rec.close(f'{fid}:{v!r}:after', compute(), want(outside), rtol=1e-9, atol=1e-9, what=f'{fid} after the context {key}={v!r}')
        try:
            with cfg.context(key, v):
                compute()
                with cfg.context(key, outside):
                    inner = compute()
                back = compute()
        except Exception as e:
            rec.fail(f'{fid}:{v!r}:nest', f'nested {key}: {e!r}')
            continue
        rec.close(f'{fid}:{v!r}:inner', inner, want(outside), rtol=1e-9, atol=1e-9, what=f'{fid} in nested context')
        rec.close(f'{fid}:{v!r}:back', back, want(v), rtol=1e-9, atol=1e-9, what=f'{fid} after nested context')
        rec.trace(1, sample=(fid, key, repr(v)))
        rec.state((fid, key, repr(v)))


def g_surface(rec):
    from chaosmagpy import model_utils as mu, chaos
    nms = ref.nm_list(1, 3)
    c = ref.lcg(15, 4)
    vals = [6371.2, 3485., 7000.5, 1.]
    for source in ('internal', 'external'):
        for r in (0.9, 1.1):
            check(rec, f'synth:{source}:{r}', 'params.r_surf', [v for v in vals if v > 10],
                  lambda: np.array(mu.synth_values(c, 6371.2*r, 40., 50., source=source)),
                  lambda a: ref.field(c, nms, 6371.2*r, 40., 50., source, a=float(a)))
            check(rec, f'design:{source}:{r}', 'params.r_surf', [v for v in vals if v > 10],
                  lambda: np.array(mu.design_gauss(6371.2*r, 40., 50., nmax=3, source=source)),
                  lambda a: ref.basis_field(nms, 6371.2*r, 40., 50., source, a=float(a)))
    n = np.repeat([1, 2, 3], [3, 5, 7])
    for r in (3485., 6371.2):
        def want(a):
            return np.array([(k+1)*(float(a)/r)**(2*k+4)*np.sum(c[n == k]**2) for k in (1, 2, 3)])
        check(rec, f'spectrum:{r}', 'params.r_surf', [6371.2, 3485., 7000.5], lambda: mu.power_spectrum(c, r), want)
    m = chaos.BaseModel('m', breaks=[0., 1.], order=1, coeffs=c.reshape(1, 1, -1))
    check(rec, 'model:surface', 'params.r_surf', [6371.2, 3485., 7000.5], lambda: m.power_spectrum(0.5),
          lambda a: np.array([(k+1)*np.sum(c[n == k]**2) for k in (1, 2, 3)]))
    check(rec, 'model:values', 'params.r_surf', [3485., 7000.5], lambda: np.array(m.synth_values(0.5, 6500., 20., 30.)),
          lambda a: ref.field(c, nms, 6500., 20., 30., 'internal', a=float(a)))


def unit(g):
    v = -np.array([g[1], g[2], g[0]], float)
    return v/np.sqrt(v@v)


def g_dipole(rec):
    from chaosmagpy import coordinate_utils as cu
    vals = [[-29442.0, -1501.0, 4797.1], [-1., 0.2, -0.3], np.array([-5., 1., 1.])]
    check(rec, 'dipole_to_vec', 'params.dipole', vals, cu.dipole_to_vec, unit)
    check(rec, 'mag', 'params.dipole', vals, lambda: cu.basevectors_mag()[2], unit)
    for t in (0., 100.3):
        check(rec, f'sm:{t}', 'params.dipole', vals, lambda: cu.basevectors_sm(np.float64(t))[2], unit)

        def gsm(g):
            th, ph = cu.sun_position(np.float64(t))
            x = np.array(cu.spherical_to_cartesian(1., th, ph))
            y = np.cross(unit(g), x)
            return y/np.sqrt(y@y)
        check(rec, f'gsm:{t}', 'params.dipole', vals, lambda: cu.basevectors_gsm(np.float64(t))[1], gsm)
        for refer in ('gsm', 'sm', 'mag'):
            check(rec, f'points:{refer}:{t}', 'params.dipole', vals,
                  lambda: np.array(cu.transform_points(np.float64(30.), np.float64(40.), np.float64(t), reference=refer)),
                  lambda g: np.array(cu.transform_points(np.float64(30.), np.float64(40.), np.float64(t), reference=refer, dipole=list(g))))
            check(rec, f'vectors:{refer}:{t}', 'params.dipole', vals,
                  lambda: np.array(cu.transform_vectors(30., 40., 1., 2., np.float64(t), refer)),
                  lambda g: np.array(cu.transform_vectors(30., 40., 1., 2., np.float64(t), refer, dipole=list(g))))
    # a foreign dipole invalidates the rotation spectra
    from chaosmagpy import basicConfig as cfg
    m = fixture.model(('static', 'gsm', 'sm'))
    for f in (lambda: m.synth_coeffs_gsm(0.), lambda: m.synth_coeffs_sm(0., rc=1.), lambda: m.synth_values_gsm(0., 6500., 20., 30.)):
        f()
        with cfg.context('params.dipole', [-1., 0.2, 0.3]):
            rec.raises('spectrum:dipole', Exception, f, what='rotation spectra for another dipole')
        f()
        rec.step(3)


def g_ellipsoid(rec):
    from chaosmagpy import coordinate_utils as cu
    vals = [(6378.137, 6356.752), (6371.2, 6371.2), [6400., 6300.]]
    for h in (0., 400.):
        for beta in (0.001, 30., 89.5, 120.):
            def want(e):
                a, b = float(e[0]), float(e[1])
                lat = np.radians(90. - beta)
                N = a*a/np.sqrt((a*np.cos(lat))**2 + (b*np.sin(lat))**2)
                x, z = (N+h)*np.cos(lat), (N*b*b/a/a+h)*np.sin(lat)
                return np.array([np.hypot(x, z), np.degrees(np.arctan2(x, z))])
            check(rec, f'gg_to_geo:{h}:{beta}', 'params.ellipsoid', vals, lambda: np.array(cu.gg_to_geo(h, beta)), want)

            def there_and_back():
                r, th = cu.gg_to_geo(h, beta)
                return np.array(cu.geo_to_gg(r, th)) + np.array([r, th])
            check(rec, f'geo_to_gg:{h}:{beta}', 'params.ellipsoid', vals, there_and_back, lambda e: want(e) + np.array([h, beta]))


def g_files(rec):
    from chaosmagpy import basicConfig as cfg, coordinate_utils as cu
    d = rec.tmp()
    os.makedirs(d, exist_ok=True)
    m = fixture.model(('tdep', 'static', 'gsm', 'sm'))
    fixture.use_rc(os.path.join(d, 'rc.h5'))
    import h5py
    with h5py.File(os.path.join(d, 'rc2.h5'), 'w') as f:
        f['time'], f['RC_e'], f['RC_i'] = fixture.RC_TIME, 3*fixture.RC_E, -fixture.RC_I
    factor = {}
    for which in ('gsm', 'sm'):
        p = cfg[f'file.{which.upper()}_spectrum']
        z = dict(np.load(p))
        factor[p] = 1.
        for k in (2., -0.5):
            q = os.path.join(d, f'{which}{k}.npz')
            w = dict(z, spectrum=z['spectrum']*k, spectrum_ind=z['spectrum_ind']*k)
            np.savez(q, **w)
            factor[q] = k
    t = np.array([-300.3, 0.2, 120.])
    for source in ('external', 'internal'):
        base = {'gsm': m.synth_coeffs_gsm(t, source=source), 'sm': m.synth_coeffs_sm(t, source=source, rc=np.ones(3))}
        for which, f in (('gsm', lambda: m.synth_coeffs_gsm(t, source=source)), ('sm', lambda: m.synth_coeffs_sm(t, source=source, rc=np.ones(3)))):
            check(rec, f'{which}:{source}', f'file.{which.upper()}_spectrum', [q for q in factor if os.path.basename(q).startswith(which)] + [cfg[f'file.{which.upper()}_spectrum']],
                  f, lambda q: base[which]*factor[q])
        rcs = {os.path.join(d, 'rc.h5'): 1., os.path.join(d, 'rc2.h5'): 3. if source == 'external' else -1.}
        check(rec, f'rc:{source}', 'file.RC_index', list(rcs), lambda: m.synth_coeffs_sm(t, source=source),
              lambda q: m.synth_coeffs_sm(t, source=source, rc=rcs[q]*fixture.rc_value(t, source)))
    # conductivity profile
    own = os.path.join(d, 'sigma.dat')
    np.savetxt(own, np.array([[0., 0.01], [400., 0.2], [1200., 2.], [2890., 1e5]]))
    freq = np.array([0., 1e-7, 1e-5])
    with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null):
        def want(q):
            s = np.loadtxt(q)
            out = np.zeros((2, 3), complex)
            for n in (1, 2):
                out[n-1, 1:] = cu.q_response_1D(1/freq[1:], s[:, 1], 6371.2 - s[:, 0], n)[3]
            return out
        check(rec, 'q_response', 'file.Earth_conductivity', [own, cfg['file.Earth_conductivity']], lambda: cu.q_response(freq, 2), want)


def g_plots(rec):
    import matplotlib.pyplot as plt
    import shapefile
    from chaosmagpy import plot_utils as pu, basicConfig as cfg
    d = rec.tmp()
    os.makedirs(d, exist_ok=True)
    for n in (1, 3):
        with shapefile.Writer(os.path.join(d, f'coast{n}')) as w:
            w.field('name', 'C')
            for i in range(n):
                w.line([[[10.*i, 0.], [10.*i, 20.]]])
                w.record(str(i))
    theta, phi = np.linspace(1, 179, 5), np.linspace(-180, 180, 6)

    def size(f):
        plt.close('all')
        f()
        s = plt.gcf().get_size_inches().copy()
        plt.close('all')
        return s
    x = np.linspace(1., 2., 4)
    for k in (1, 2):
        check(rec, f'timeseries:{k}', 'plots.figure_width', [4., 9.5], lambda: size(lambda: pu.plot_timeseries(x, *k*[x])), lambda v: np.array([v, .8*k*v]))
        check(rec, f'maps:{k}', 'plots.figure_width', [4., 9.5], lambda: size(lambda: pu.plot_maps(theta, phi, *k*[np.ones((5, 6))])), lambda v: np.array([v, .4*k*v]))
    check(rec, 'spectrum', 'plots.figure_width', [4., 9.5], lambda: size(lambda: pu.plot_power_spectrum(x)), lambda v: np.array([v, .8*v]))

    def lines():
        plt.close('all')
        pu.plot_maps(theta, phi, np.ones((5, 6)))
        n = max(len(a.lines) for a in plt.gcf().axes)
        plt.close('all')
        return n
    default = lines()
    counts = {os.path.join(d, f'coast{n}.shp'): n for n in (1, 3)}
    counts[cfg['file.shp_coastline']] = default
    check(rec, 'coast', 'file.shp_coastline', list(counts), lines, lambda q: counts[q])
    rec.ok(default > 50, 'coast:default', f'only {default} coast lines by default')


GOVERNS = {'surface': g_surface, 'dipole': g_dipole, 'ellipsoid': g_ellipsoid, 'files': g_files, 'plots': g_plots}
