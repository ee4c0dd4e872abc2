"""C19: the configuration as a state machine, checked in lock-step with a reference model."""
import itertools
import json
import os
import numpy as np

PROPERTY, LEVEL = 'C19', 'model_checking'
RULE = ('every sequence of configuration operations up to the depth bound over the alphabet (assignments of valid and invalid values, '
        'resets, full reset, save, load of good/bad files, in-place edits of stored and of assigned arrays) runs on a freshly executed '
        'config module; after every step all settings are compared with the reference model.')
ASSUMPTIONS = ['settings of the same kind (float, integer, vector, path, version) behave alike beyond depth 2']
DEF = {'params.r_surf': 6371.2, 'params.r_cmb': 3485.0, 'params.dipole': (-29442.0, -1501.0, 4797.1),
       'params.ellipsoid': (6378.137, 6356.752), 'params.cdf_to_mjd': 730485, 'plots.figure_width': 6.3}
PATHS = {'file.RC_index': 'RC_index.h5', 'file.GSM_spectrum': 'frequency_spectrum_gsm.npz', 'file.SM_spectrum': 'frequency_spectrum_sm.npz',
         'file.Earth_conductivity': 'Earth_conductivity.dat', 'file.shp_coastline': 'ne_110m_coastline.zip'}
KIND = {'params.r_surf': 'float', 'params.r_cmb': 'float', 'plots.figure_width': 'float', 'params.cdf_to_mjd': 'int',
        'params.dipole': 'vec3', 'params.ellipsoid': 'vec2', 'params.CHAOS_version': 'str', **{k: 'path' for k in PATHS}}
GOOD = {'float': [7000, 12.5, '8.25', np.float32(3.5), np.float64(1e-3), True], 'int': [5, '17', np.int32(-3), 730000.0],
        'vec3': [[1, 2, 3], (-1.5, 0., 2.), np.array([4., 5., 6.]), np.array([7, 8, 9])],
        'vec2': [[6371.2, 6371.2], (2, 1), np.array([6378., 6357.])],
        'str': ['7.18', '8.0', 'CHAOS-6.1'], 'path': ['@a', '@dir/b.txt', None, 'None', '@P']}
BAD = {'float': ['abc', None, [1., 2.], '', {}], 'int': ['x', None, '1.5.2', [1, 2]],
       'vec3': [[1., 2.], [1., 2., 3., 4.], 5., [[1., 2., 3.]], ['a', 'b', 'c'], None, 'abc', [], [1., [2.], 3.]],
       'vec2': [[1.], [1., 2., 3.], 5., ['x', 'y'], None], 'str': ['7', 'abc', None, ''], 'path': ['/nonexistent/x', '@missing', '']}


def small():
    """Alphabet of the deep exploration: at least one operation of every kind on every kind of setting."""
    ops = [('set', 'params.r_surf', '8.25'), ('set', 'params.r_surf', 'abc'), ('set', 'params.dipole', 'A'), ('set', 'params.dipole', [1., 2.]),
           ('set', 'params.ellipsoid', 'E'), ('set', 'params.cdf_to_mjd', '17'), ('set', 'params.CHAOS_version', '8.0'),
           ('set', 'params.CHAOS_version', 'abc'), ('set', 'file.GSM_spectrum', '@a'), ('set', 'file.GSM_spectrum', '@missing'),
           ('set', 'file.RC_index', None), ('set', 'nokey', 1.), ('reset', 'params.dipole'), ('reset', 'params.r_surf'),
           ('reset', 'file.GSM_spectrum'), ('reset', 'params.ellipsoid'), ('reset', 'nokey'), ('full',), ('save', 'one'), ('load', 'one'), ('load', 'bad'), ('load', 'nofile'), ('load', 'part'),
           ('edit', 'params.dipole'), ('edit', 'params.ellipsoid'), ('source', 'A')]
    return ops


def wide():
    ops = []
    for k, kind in KIND.items():
        ops += [('set', k, i, 'good') for i in range(len(GOOD[kind]))] + [('set', k, i, 'bad') for i in range(len(BAD[kind]))]
        ops += [('reset', k)]
    for k in ('params.dipole', 'params.ellipsoid'):
        ops += [('edit', k)]
    return ops + [('full',), ('save', 'one'), ('load', 'one'), ('load', 'bad'), ('load', 'badkey'), ('load', 'nofile'), ('load', 'part'), ('load', 'empty'), ('load', 'garbage'), ('set', 'nokey', 1.)]


def tasks(tier):
    n = len(small())
    deep = [('deep', dict(first=i, L=5 if tier == "thorough" else 4)) for i in range(n)]
    w = len(wide())
    return deep + [('pairs', dict(lo=a, hi=min(a+8, w), L=2)) for a in range(0, w, 8)] + [('defaults', {}), ('precise', {})]


class World:
    """The real module, freshly executed, next to the reference model."""
    code = None

    def __init__(self, d, prelude=True):
        import chaosmagpy.config_utils as cu
        if World.code is None:
            World.code = compile(open(cu.__file__).read(), cu.__file__, 'exec')
        self.ns = {'__name__': 'chaosmagpy.config_utils', '__file__': cu.__file__, '__package__': 'chaosmagpy'}
        exec(World.code, self.ns)
        self.cfg = self.ns['basicConfig']
        self.lib = os.path.join(os.path.dirname(os.path.abspath(cu.__file__)), 'lib')
        self.dir = d
        self.files = {}
        self.src = {}
        self.model = self.defaults()
        self.hist = []
        if prelude:   # the RC file is not part of the repository
            self.cfg['file.RC_index'] = os.path.join(d, 'a')
            self.model['file.RC_index'] = os.path.join(d, 'a')

    def defaults(self):
        out = dict(DEF)
        out['params.CHAOS_version'] = '7.18'
        for k, v in PATHS.items():
            out[k] = os.path.join(self.lib, v)
        return out

    def convert(self, key, value):
        """Documented type of a valid value (reference)."""
        kind = KIND[key]
        if kind == 'float':
            return float(value)
        if kind == 'int':
            return int(value)
        if kind[:3] == 'vec':
            return tuple(float(x) for x in value)
        if kind == 'path':
            return None if value is None or value == 'None' else os.fspath(value)
        return value

    def concrete(self, v):
        if isinstance(v, str) and v.startswith('@'):
            if v == '@P':
                import pathlib
                return pathlib.Path(self.dir) / 'a'
            return os.path.join(self.dir, v[1:])
        return v

    def step(self, op):
        """Returns None or the description of a disagreement."""
        self.hist.append(op)
        before = dict(self.model)
        want = dict(self.model)
        may_fail = must_fail = False
        call = None
        kind = op[0]
        if kind == 'set':
            key = op[1]
            if len(op) == 4:
                must_fail = op[3] == 'bad'
                v = (BAD if must_fail else GOOD)[KIND[key]][op[2]]
            else:
                v = op[2]
                must_fail = key not in KIND or repr(v) in ("'abc'", '[1.0, 2.0]', "'@missing'")
            if isinstance(v, str) and v in ('A', 'E'):
                name, v = v, np.array([4., 5., 6.]) if v == 'A' else np.array([6378., 6357.])
                self.src[name] = v
            v = self.concrete(v)
            if isinstance(v, np.ndarray):
                self.src.setdefault('A', v) if v.size == 3 and v.dtype == float else None
            if not must_fail:
                want[key] = self.convert(key, v)
            call = lambda: self.cfg.__setitem__(key, v)
        elif kind == 'reset':
            key = op[1]
            must_fail = key not in KIND
            if not must_fail:
                want[key] = self.defaults()[key]
                may_fail = KIND[key] == 'path' and not os.path.exists(want[key])
            call = lambda: self.cfg.reset(key)
        elif kind == 'full':
            want = self.defaults()
            call = self.cfg.fullreset
        elif kind == 'save':
            path = os.path.join(self.dir, op[1] + '.json')
            self.files[op[1]] = dict(self.model)
            call = lambda: self.cfg.save(path)
        elif kind == 'load':
            name = op[1]
            path = os.path.join(self.dir, name + '.json')
            if name == 'one':
                if 'one' in self.files:
                    want = dict(self.files['one'])
                    may_fail = any(KIND[k] == 'path' and v is not None and not os.path.exists(v) for k, v in want.items())
                else:
                    must_fail = True
            else:
                must_fail = name in ('bad', 'badkey', 'nofile', 'garbage')
                if name == 'part':
                    want.update({'params.r_cmb': 3480.5, 'params.ellipsoid': (6371., 6300.), 'plots.figure_width': 4.0, 'params.cdf_to_mjd': 11})
            call = lambda: self.cfg.load(path)
        elif kind == 'edit':
            key = op[1]
            a = list(self.model[key])
            a[0] = a[0] + 1.0
            want[key] = tuple(a)

            def call():
                self.cfg[key][0] += 1.0
        elif kind == 'source':
            if op[1] not in self.src:
                return None

            def call():
                self.src[op[1]][:] = -1.
        try:
            call()
            err = None
        except Exception as e:
            err = e
        if err is None and must_fail:
            return f'{op} was accepted'
        if err is not None and not (must_fail or may_fail):
            return f'{op} raised {type(err).__name__}: {err}'
        self.model = before if err is not None else want
        return self.compare()

    def compare(self):
        c = self.cfg
        if set(c) != set(KIND):
            return f'keys {sorted(set(c) ^ set(KIND))} appeared or disappeared'
        for k, w in self.model.items():
            g = c[k]
            kind = KIND[k]
            if kind == 'float':
                good = isinstance(g, float) and g == w
            elif kind == 'int':
                good = isinstance(g, int) and not isinstance(g, bool) and g == w
            elif kind[:3] == 'vec':
                good = isinstance(g, np.ndarray) and g.shape == (len(w),) and g.dtype.kind in 'fi' and tuple(g) == w
            elif kind == 'path':
                good = (g is None and w is None) or (g is not None and w is not None and os.fspath(g) == w)
            else:
                good = isinstance(g, str) and g == w
            if not good:
                return f'{k} is {g!r} ({type(g).__name__}), expected {w!r}'
        return None

    def canon(self):
        return (tuple(sorted((k, repr(v)) for k, v in self.model.items())), tuple(sorted((k, repr(sorted(v.items(), key=str))) for k, v in self.files.items())),
                tuple(sorted((k, v.tobytes()) for k, v in self.src.items())))


def setup(rec):
    d = rec.tmp()
    os.makedirs(os.path.join(d, 'dir'))
    for f in ('a', 'dir/b.txt'):
        open(os.path.join(d, f), 'w').write('x')
    part = {'params.r_cmb': 3480.5, 'params.ellipsoid': [6371, 6300], 'plots.figure_width': '4', 'params.cdf_to_mjd': 11}
    bad = {'params.r_cmb': 1.0, 'params.dipole': [1, 2], 'params.r_surf': 2.0}
    badkey = {'params.r_cmb': 1.0, 'zzz': 5}
    for n, v in (('part', part), ('bad', bad), ('badkey', badkey), ('empty', {})):
        json.dump(v, open(os.path.join(d, n + '.json'), 'w'))
    open(os.path.join(d, 'garbage.json'), 'w').write('{"params.r_cmb": 1.0, ')
    return d


def run(rec, d, seq, prelude=True):
    one = os.path.join(d, 'one.json')
    if os.path.exists(one):
        os.remove(one)
    w = World(d, prelude)
    for i, op in enumerate(seq):
        msg = w.step(op)
        rec.step()
        rec.state(w.canon())
        if msg:
            rec.fail('history:' + '>'.join('.'.join(map(str, o)) for o in seq[:i+1])[:300], f'after {seq[:i+1]}: {msg}')
            return w
    rec.trace(1, sample=seq)
    return w


def deep(rec, first, L):
    d = setup(rec)
    ops = small()
    for n in range(L):
        for rest in itertools.product(ops, repeat=n):
            run(rec, d, (ops[first],) + rest)


def pairs(rec, lo, hi, L):
    d = setup(rec)
    ops = wide()
    for a in ops[lo:hi]:
        run(rec, d, (a,))
        for b in ops:
            run(rec, d, (a, b))
            if a[0] == 'set' and len(a) == 4 and b == ('full',):   # save, change, load, edit
                for c in ops[::7]:
                    run(rec, d, (a, ('save', 'one'), c, ('load', 'one')))
                    run(rec, d, (a, c, b))


def defaults(rec):
    """Initial values, text form and the process-wide instance."""
    import chaosmagpy
    from chaosmagpy import config_utils
    d = setup(rec)
    w = World(d, prelude=False)
    msg = w.compare()
    rec.ok(msg is None, 'initial', f'initially: {msg}')
    w.cfg = chaosmagpy.basicConfig
    msg = w.compare()
    rec.ok(msg is None, 'initial:public', f'chaosmagpy.basicConfig: {msg}')
    rec.ok(chaosmagpy.basicConfig is config_utils.basicConfig, 'identity', 'two configurations exist')
    for k in KIND:
        rec.ok(k in str(chaosmagpy.basicConfig), f'text:{k}', f'{k} missing in text form')
        rec.step()
    # without the prelude, resets of every setting
    for k in KIND:
        for f in (None, 'edit'):
            seq = ([('edit', k)] if f and KIND[k][:3] == 'vec' else []) + [('reset', k), ('full',)]
            run(rec, d, seq, prelude=False)
    rec.trace()


def precise(rec):
    """Values of full precision, extreme values and odd file names come back from a file exactly; near misses are rejected."""
    import os
    from chaosmagpy.config_utils import BasicConfig
    d = rec.scratch
    V = {'params.r_surf': [1/3, 6371.2 + 1e-9, 5e-324, 1.7976931348623157e308, 2.**-1074, 1e22, -0., 6371.2000000000001, float('inf'), '1e3', ' 12.5 ', 7, True],
         'params.r_cmb': [1e-17, 3485.0000000000005],
         'plots.figure_width': [0.1 + 0.2, 6.299999999999999],
         'params.cdf_to_mjd': [2**53 + 1, -2**70, 0, '  12 ', '-7', '1_000', 10**30],
         'params.dipole': [[1/3, -1e-12, 2.**0.5], [1e300, 5e-324, -0.], [0.1, 0.2, 0.30000000000000004], (1, 2, 3)],
         'params.ellipsoid': [[6378.137000000001, 6356.7523142], [1/7, 1/9]],
         'params.CHAOS_version': ['10.12', '7.x18.2', 'v0.0', '7.18\u00e6', 'a "b" 1.2\\', '7.18\n'],
         'file.GSM_spectrum': ['with space.npz', '\u00e6\u00f8\u00e5.npz', 'quote"s.npz', "it's.npz", 'back\\slash.npz', 'a\nb.npz', '\u4e2d\U0001F600.npz', '%20#;.npz', 'None.npz', 'null', 'true', '7'],
         'file.RC_index': ['None ', 'none', 'NONE'], 'file.shp_coastline': ['.zip', '~', '$HOME']}
    os.makedirs(os.path.join(d, 'odd'))
    for key, vals in V.items():
        for i, v in enumerate(vals):
            if key.startswith('file'):
                v = os.path.join(d, 'odd', v)
                open(v, 'w').close()
            c = BasicConfig()
            c.fullreset()
            c['file.RC_index'] = None
            c[key] = v
            kept = c[key]
            fid = f'precise:{key}:{i}'
            if key.startswith('params.d') or key.startswith('params.e'):
                rec.ok(np.array_equal(kept, np.array(v, float)), fid, f'{v!r} kept as {kept!r}')
            elif key == 'params.cdf_to_mjd':
                rec.ok(type(kept) is int and kept == int(v), fid, f'{v!r} kept as {kept!r}')
            elif key in ('params.CHAOS_version',) or key.startswith('file'):
                rec.ok(kept == v, fid, f'{v!r} kept as {kept!r}')
            else:
                rec.ok(type(kept) is float and kept == float(v), fid, f'{v!r} kept as {kept!r}')
            path = os.path.join(d, f'{i}-\u00e6 x.json')
            c.save(path)
            e = BasicConfig()
            e.fullreset()
            e.load(path)
            for k in c:
                a, b = e[k], c[k]
                rec.ok(type(a) is type(b) and (a.dtype == b.dtype and np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b), f'{fid}:{k}', f'{k}: {b!r} came back as {a!r}')
            rec.case(fid)
    B = {'params.cdf_to_mjd': ['7.5', '1e5', '12 3', '0x10', 'inf', '7.0'], 'params.r_surf': ['1,5', '6371.2 km', '--1', '1e', '0x10'],
         'params.dipole': [['1', '2', 'x'], [[1.], [2.], [3.]], {1., 2., 3.}, '1 2 3'], 'params.ellipsoid': [np.zeros((2, 2)), np.zeros((1, 2)), np.zeros(0)],
         'params.CHAOS_version': ['7', '.7', '7.', '7,18', 'x.y', '7. 18'], 'file.SM_spectrum': [' ', 'none', os.path.join(d, 'no', 'x'), os.path.join(d, 'odd', 'nothing')]}
    for key, vals in B.items():
        for i, v in enumerate(vals):
            c = BasicConfig()
            c.fullreset()
            before = repr(c[key])
            rec.raises(f'reject:{key}:{i}', (ValueError, TypeError, FileNotFoundError), c.__setitem__, key, v, what=f'{key} = {v!r}')
            rec.ok(repr(c[key]) == before, f'kept:{key}:{i}', f'{key} changed by the rejected {v!r}')
            rec.case((key, i))
