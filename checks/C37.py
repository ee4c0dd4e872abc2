"""C37: a model is what its attributes say, also after they were changed, copied or pickled."""
import contextlib
import copy
import io
import itertools
import pickle
import re
import warnings
import numpy as np
from mc import alphabet, fixture, ref

PROPERTY, LEVEL = 'C37', 'model_checking'
RULE = ('histories of queries (every query of the model with its options), changes of its attributes (20: arrays in place, arrays, parts and dictionary entries replaced, parts removed) and copies (shallow, deep, pickled '
        'with every protocol) on a fresh model: every query before and after every change, all queries around every ordered pair of changes, every kind of copy before and after queries, with every change of the original or of the '
        'copy; the answer of every query is compared with that of a model in an isolated process that had the same changes but no queries and no copies')
ASSUMPTIONS = ['attributes are changed consistently (all arrays of a part keep matching shapes)', 'shallow copies share arrays, for them only whole attributes are replaced']


def spline(seed, order=3, n=3, source='internal'):
    from chaosmagpy.chaos import BaseModel
    return BaseModel('other', np.array([-450., 0., 350.]), order, ref.lcg(order*2*n*(n+2), seed, -9, 9).reshape(order, 2, -1), source=source)


def constant(seed, n, breaks):
    from chaosmagpy.chaos import Base
    return Base('sat', np.array(breaks), 1, ref.lcg((len(breaks)-1)*n, seed, -9, 9).reshape(1, len(breaks)-1, n), meta=dict(Euler_prerotation=np.zeros(3)))


def times(x, f):
    x *= f


def moved(x, d):
    x += d


CHANGES = dict(
    tdep_inplace=lambda m: times(m.model_tdep.coeffs, 1.5), tdep_one=lambda m: m.model_tdep.coeffs.__setitem__((-1, 1, 2), 77.), tdep_array=lambda m: setattr(m.model_tdep, 'coeffs', 0.5*m.model_tdep.coeffs + 1.),
    tdep_breaks=lambda m: moved(m.model_tdep.breaks, 20.), tdep_breaks_array=lambda m: setattr(m.model_tdep, 'breaks', m.model_tdep.breaks - 30.), tdep_part=lambda m: setattr(m, 'model_tdep', spline(301)), tdep_none=lambda m: setattr(m, 'model_tdep', None),
    static_inplace=lambda m: times(m.model_static.coeffs, -2.), static_part=lambda m: setattr(m, 'model_static', spline(302, 1, 4)), static_none=lambda m: setattr(m, 'model_static', None),
    gsm_inplace=lambda m: moved(m.coeffs_gsm, 3.), gsm_array=lambda m: setattr(m, 'coeffs_gsm', np.arange(8.)), sm_inplace=lambda m: times(m.coeffs_sm, 3.), sm_array=lambda m: setattr(m, 'coeffs_sm', np.arange(8.)[::-1]),
    delta_inplace=lambda m: times(m.coeffs_delta['q10'], 2.), delta_array=lambda m: m.coeffs_delta.__setitem__('s11', np.array([[4., -5.]])), delta_breaks=lambda m: moved(m.breaks_delta['q11'], 15.),
    euler_inplace=lambda m: times(m.model_euler['bravo'].coeffs, 2.), euler_part=lambda m: m.model_euler.__setitem__('alpha', constant(303, 3, [-400., -300., 100.])), euler_pop=lambda m: m.model_euler.pop('charlie'),
    cal_inplace=lambda m: moved(m.model_cal['cryosat-2_1'].coeffs, 1.), name=lambda m: setattr(m, 'name', 'renamed'))
WHOLE = ('tdep_part', 'tdep_none', 'static_part', 'static_none', 'gsm_array', 'sm_array', 'name')     # attributes of the model itself
COPIES = dict(copy=copy.copy, deepcopy=copy.deepcopy, **{f'pickle{p}': (lambda m, p=p: pickle.loads(pickle.dumps(m, p))) for p in range(pickle.HIGHEST_PROTOCOL + 1)})


def tasks(tier):
    deep = tier == 'thorough'
    out = [('single', dict(change=c, deep=deep)) for c in CHANGES] + [('pairs', dict(first=c, deep=deep)) for c in CHANGES]
    out += [('copies', dict(kind=k, part=i, of=4, deep=deep)) for k in COPIES if deep or k in ('copy', 'deepcopy', f'pickle{pickle.HIGHEST_PROTOCOL}') for i in range(4)]
    return out + [('plain', dict(deep=deep)), ('parts', {}), ('shared', {})]


class Worlds:
    def __init__(self, rec, deep=False):
        import matplotlib
        matplotlib.use('Agg')
        from checks import C13
        warnings.simplefilter('ignore')
        fixture.use_rc(rec.tmp('rc.h5'))
        self.rec, self.q = rec, {n: f for n, (need, f) in C13.queries(alphabet.Tmp(self.folder(rec)), False).items()}
        if not deep:
            self.q = {n: f for n, f in self.q.items() if not re.match(r'(pe|pt|pm|ps|ft|fs)|(cg|cm|cmr|vg|vm|vmr)(None|external|internal|all)[15]|call.*,|eu(alpha|bravo|charlie).*(dim|extra)|.*99', n)}
        self.known = {}

    def folder(self, rec):
        import os
        d = rec.tmp('files')
        os.makedirs(d, exist_ok=True)
        return d

    def ask(self, m, n):
        with contextlib.redirect_stdout(io.StringIO()):
            return alphabet.answer(lambda _: self.q[n](m), self)

    d = '<dir>'

    def all(self, m, names=None):
        return {n: self.ask(m, n) for n in names or self.q}

    def expected(self, changes):
        """Answers after the changes of a model that was asked nothing before; every answer from a new model."""
        if changes not in self.known:
            def fresh():
                out = {}
                for n in self.q:
                    m = fixture.model()
                    for c in changes:
                        CHANGES[c](m)
                    out[n] = self.ask(m, n)
                return out
            self.known[changes] = alphabet.isolated(fresh)
        return self.known[changes]

    def compare(self, fid, got, changes, what):
        want = self.expected(changes)
        if not self.rec.ok(isinstance(want, dict), fid, f'{what}: {want}'):
            return
        for n, x in got.items():
            self.rec.case((fid, n))
            self.rec.ok(alphabet.same(x, want[n]), f'{fid}:{n}', f'{what}: {n} gives {str(x)[:150]} instead of {str(want[n])[:150]}')


def single(rec, change, deep):
    """query, change, the same query: no answer is remembered."""
    w = Worlds(rec, deep)
    w.expected((change,))
    for n in w.q:
        m = fixture.model()
        w.ask(m, n)
        CHANGES[change](m)
        w.compare(f'single:{change}', {n: w.ask(m, n)}, (change,), f'after the query {n} and the change {change}')
        rec.step(2)
    rec.state(change), rec.trace(len(w.q))


def possible(first, c):
    """Whether both changes can be made."""
    def probe():
        m = fixture.model()
        try:
            CHANGES[first](m)
            CHANGES[c](m)
        except Exception:
            return False
        return True
    return c != first and alphabet.isolated(probe) is True


def pairs(rec, first, deep):
    """all queries, change, all queries, another change, all queries."""
    w = Worlds(rec, deep)
    m = fixture.model()
    w.compare(f'pairs:{first}:none', w.all(m), (), 'unchanged model')
    CHANGES[first](m)
    w.compare(f'pairs:{first}:one', w.all(m), (first,), f'after all queries and the change {first}')
    rec.step(2)
    for c in CHANGES:
        if possible(first, c):
            m = fixture.model()
            CHANGES[first](m)
            w.all(m)
            CHANGES[c](m)
            w.compare(f'pairs:{first}:{c}', w.all(m), (first, c), f'after the changes {first} and {c}')
            rec.step(3), rec.trace()
            rec.state((first, c))


def plain(rec, deep):
    """Copies without changes."""
    w = Worlds(rec, deep)
    for kind, f in COPIES.items():
        for warm in (False, True):
            m = fixture.model()
            if warm:
                w.all(m)
            x = f(m)
            w.compare(f'copies:{kind}:{warm}', w.all(x), (), f'{kind} (queries before: {warm})')
            w.compare(f'copies:{kind}:{warm}:original', w.all(m), (), f'original after {kind} (queries before: {warm})')
            w.compare(f'copies:{kind}:{warm}:twice', w.all(f(f(x))), (), f'{kind} of {kind}')
            rec.ok(type(x) is type(m) and fixture.snapshot(x) == fixture.snapshot(m) and x.timestamp == m.timestamp, f'copies:{kind}:attr', 'attributes differ')
            rec.step(4), rec.trace(), rec.state((kind, warm))


def copies(rec, kind, part, of, deep):
    w = Worlds(rec, deep)
    f = COPIES[kind]
    for c in list(WHOLE if kind == 'copy' else CHANGES)[part::of]:
        for warm in (False, True):
            for side in ('copy', 'original'):
                m = fixture.model()
                if warm:
                    w.all(m)
                x = f(m)
                CHANGES[c](x if side == 'copy' else m)
                w.compare(f'copies:{kind}:{warm}:{c}:{side}', w.all(x), (c,) if side == 'copy' else (), f'{kind}, change {c} of the {side}: the copy')
                w.compare(f'copies:{kind}:{warm}:{c}:{side}2', w.all(m), (c,) if side == 'original' else (), f'{kind}, change {c} of the {side}: the original')
                rec.step(4), rec.trace()
                rec.state((kind, warm, c, side))


def parts(rec):
    """Parts of models and the configuration alone."""
    import chaosmagpy as cp
    fixture.use_rc(rec.tmp("rc.h5"))
    t = np.array([-900., -500., -20.5, 0., 400., 900.])
    for kind, f in COPIES.items():
        for p in ('model_tdep', 'model_static'):
            m = fixture.model()
            a = getattr(m, p)
            x = f(a)
            rec.case((kind, p))
            rec.ok(type(x) is type(a) and fixture.snapshot(x) == fixture.snapshot(a), f'parts:{kind}:{p}', 'attributes differ')
            for q in (lambda z: z.synth_coeffs(t), lambda z: z.synth_coeffs(t, deriv=1, nmax=2, extrapolate='spline'), lambda z: list(z.synth_values(t, 6500., 40., 20.)), lambda z: z.power_spectrum(t), lambda z: z.to_ppdict()):
                rec.ok(alphabet.same(fixture.snapshot(q(x)), fixture.snapshot(q(a))), f'parts:{kind}:{p}:q', 'answers differ')
        old = cp.basicConfig['params.r_surf']
        x = f(cp.basicConfig)
        rec.ok(dict(x) is not dict(cp.basicConfig) and fixture.snapshot(dict(x)) == fixture.snapshot(dict(cp.basicConfig)), f'parts:{kind}:config', 'copied configuration differs')
        dict.__setitem__(x, 'params.r_surf', 1.)
        rec.ok(cp.basicConfig['params.r_surf'] == old, f'parts:{kind}:config2', 'copy of the configuration is not independent')
        dict.__setitem__(x, 'params.r_surf', old)
        rec.state(kind), rec.step(), rec.trace()


def shared(rec):
    """Models made from the same arguments do not share state through the library."""
    from chaosmagpy.chaos import CHAOS
    w = Worlds(rec)
    for c in WHOLE + ('tdep_array', 'tdep_breaks_array', 'delta_array'):
        kw = fixture.kwargs()
        if c == 'delta_array':
            kw2 = {**kw, 'coeffs_delta': dict(kw['coeffs_delta'])}
        else:
            kw2 = kw
        a, b = CHAOS(name='T', **kw), CHAOS(name='T', **kw2)
        w.all(a), w.all(b)
        CHANGES[c](a)
        w.compare(f'shared:{c}:a', w.all(a), (c,), f'change {c} of one of two models')
        w.compare(f'shared:{c}:b', w.all(b), (), f'change {c} of the other of two models')
        rec.step(2), rec.state(c), rec.trace()
    assert itertools
