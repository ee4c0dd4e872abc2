"""C09: queries never change a model, its inputs or the configuration, and never influence each other."""
import ast
import os
import sys
import types
import numpy as np
from mc import alphabet, fixture

PROPERTY, LEVEL = 'C09', 'model_checking'
RULE = ('operation histories over an alphabet of ~310 public operations (every query of the model with its options, every function of the four utility modules, loading, saving, recorded and '
        'real drawings, 32 failing operations) in a world with two sets of argument values (written into the same arrays), three configurations and two models: every ordered pair of core '
        'operations with every change of the world in between, every triple of core operations from a fresh model, every operation before and after every core operation (thorough: every '
        'ordered pair of all operations), and every distinct library call of an operation failing with an error followed by the same and two other operations. After every step the answer is compared with '
        'the one of an isolated process with a fresh world, and the model, all argument arrays, the configuration, floating-point error handling and bundled files with their state before.')
ASSUMPTIONS = ['private attributes (leading underscore) and attributes added later are not state a user sees; their effect on answers is checked',
               'injected failures arise in calls made by the package outside of except/finally clauses and __exit__ methods']
CORE = ["m.ct{}", "m.ct{'extrapolate': 'off'}", "m.ct{'deriv': 1}", "m.vt{}", "m.vtg", "m.cs{}", "m.vs{'nmax': 4}", "m.cgexternalNone", "m.cginternalNone", "m.vgNoneNone", "m.cmexternalNone", "m.cminternal1",
        "m.cmrexternalNone", "m.vmallNone", "m.eualpha{}", "m.eux", "m.eubravo{'dim': 2}", "m.callall", "m.callv", "m.callext", "rcarr", "rcarr2", "m.pt", "m.pm1", "m.fs", "m.ft", "pp", "bspec", "bsvs",
        "sv{}", "sv{'source': 'external'}", "dg{}", "leg", "leg1", "ppfrom", "specexternal", "bgsm", "bsm", "bmag", "tpgsmNone", "tvsmNone", "g2g", "geo2gg", "rotTrue", "sun", "lshc", "lrc", "d2mNone", "sfp",
        "xextra", "xtheta", "xtheta2", "xshape2", "xsrc", "xrcall", "xrcsize", "xsave", "xctx", "xdip2"]
SMALL = ["m.ct{}", "m.ct{'deriv': 1}", "m.vt{}", "m.vs{}", "m.cgexternalNone", "m.vgNoneNone", "m.cmexternalNone", "m.cminternalNone", "m.vmallNone", "rcarr", "m.callall", "m.eualpha{}",
         "m.pt", "m.pm", "m.fs", "bspec", "sv{}", "leg", "tpgsmNone", "g2g", "xtheta2", "xrcall", "xshape2", "xsave"]
CHANGES = (None, ('values',), ('config', 1), ('config', 2), ('model',))


def tasks(tier):
    deep = tier == 'thorough'
    k = 16 if deep else 8
    out = [('pairs', dict(part=i, of=k)) for i in range(k)] + [('triples', dict(part=i, of=k, deep=deep)) for i in range(k)]
    out += [('walk', dict(part=i, of=k, deep=deep)) for i in range(k)] + [('drawn', dict(part=i, of=8, deep=deep)) for i in range(8)]
    return out + [('inject', dict(part=i, of=k, deep=deep)) for i in range(k)]


class History:
    """Runs operations on one world and judges every step."""

    def __init__(self, rec):
        import chaosmagpy  # noqa: F401
        import matplotlib
        matplotlib.use('Agg')
        self.rec, self.d = rec, rec.tmp('w')
        self.w = alphabet.World(self.d)
        self.ops = alphabet.operations(self.w)
        self.known = {}
        self.past = []

    def core(self, names):
        return [n for n in names if n in self.ops]

    def env(self):
        return self.w.alt, self.w.conf, self.w.other

    def expected(self, n):
        key = (n, self.env())
        if key not in self.known:
            alt, conf, other = self.env()

            def fresh():
                w = self.w
                w.values(alt)
                w.config(conf)
                w.fresh(other)
                return alphabet.answer(self.ops[n][1], w)
            self.known[key] = alphabet.isolated(fresh)
        return self.known[key]

    def prepare(self, names, envs):
        """Answers of isolated processes, before anything ran in this one."""
        keep = self.env()
        for e in envs:
            self.set(e)
            for n in names:
                self.expected(n)
        self.set(keep)

    def set(self, e):
        w = self.w
        if e[0] != w.alt:
            w.values(e[0])
        if e[1] != w.conf:
            w.config(e[1])
        if e[2] != w.other:
            w.fresh(e[2])

    def change(self, c):
        w = self.w
        if c is None:
            return
        if c[0] == 'values':
            w.values(1 - w.alt)
        elif c[0] == 'config':
            w.config(0 if w.conf == c[1] else c[1])
        else:
            w.fresh(1 - w.other)
        self.past.append(str(c))

    def start(self, e=(0, 0, 0)):
        self.set(e)
        self.w.fresh(e[2])
        self.past = []

    def step(self, n, files=False):
        self.past.append(n)
        got = alphabet.answer(self.ops[n][1], self.w)
        self.rec.step()
        self.rec.state((n, self.env()))
        return self.judge(n, got, files)

    def judge(self, n, got, files=False):
        want = self.expected(n)
        fid = f'{" > ".join(self.past[-4:])}'
        good = True
        if got[0] != want[0] or got[1] != want[1] if got[0] == 'error' else got[0] != want[0] or not alphabet.same(got[1], want[1]):
            good = self.rec.fail(f'answer:{fid}', f'after {self.past[-6:-1]} the answer of {n} differs from the one on a fresh model: {str(got)[:150]} instead of {str(want)[:150]}')
        c = self.w.changed() or (self.w.files_changed() if files else None)
        if c:
            good = self.rec.fail(f'state:{n}:{fid}', f'{c} after {self.past[-6:]}')
        if not good:
            self.w.values(self.w.alt)
            self.w.config(self.w.conf)
            self.w.fresh(self.w.other)
            self.w.stat0 = self.w.stat()
            np.seterr(all='ignore')
        return good


ENVS = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 2, 0), (0, 0, 1)]


def pairs(rec, part, of):
    """Every ordered pair of core operations with every change of the world in between."""
    h = History(rec)
    core = h.core(CORE)
    h.prepare(core, ENVS)
    for i, a in enumerate(core):
        if i % of != part:
            continue
        for c in CHANGES:
            for b in core:
                h.start()
                h.step(a)
                h.change(c)
                h.step(b)
                rec.trace(1, (a, c, b))
            h.rec.ok(not h.w.files_changed(), f'files:{a}:{c}', f'{h.w.files_changed()}')
    h.start()


def triples(rec, part, of, deep):
    """Every triple of core operations on a fresh model."""
    h = History(rec)
    core = h.core(sorted({*SMALL, *CORE[::3]}) if deep else SMALL)
    h.prepare(core, ENVS[:1])
    for i, a in enumerate(core):
        for j, b in enumerate(core):
            if (i*len(core) + j) % of != part:
                continue
            for c in core:
                h.start()
                h.step(a)
                h.step(b)
                h.step(c)
                rec.trace()
    rec.ok(not h.w.files_changed(), f'files:{part}', f'{h.w.files_changed()}')


def walk(rec, part, of, deep):
    """Every operation before and after every core operation (thorough: every operation), in long histories with changes of the world in between."""
    h = History(rec)
    names = [n for n, (k, _) in h.ops.items() if k not in 'Ph']
    if deep:   # 4 x 4 blocks of ordered pairs
        first, second = names[part//4::4], names[part%4::4]
    else:
        first, second = h.core(SMALL), names[part::of]
    h.prepare({*first, *second}, ENVS)
    for i, a in enumerate(first):
        h.start()
        for j, b in enumerate(second):
            for c in (CHANGES[(i+j) % 5], CHANGES[(i+2*j+1) % 5]):
                h.step(a)
                h.change(c)
                h.step(b)
                h.set((0, 0, 0))
                rec.trace()
        rec.ok(not h.w.files_changed(), f'files:{a}', f'{h.w.files_changed()}')
    # read-only arguments
    names = second
    h.start()
    for k, v in h.w.a.items():
        v.flags.writeable = False
    for b in names:
        h.step(b)
        rec.trace()
    for k, v in h.w.a.items():
        v.flags.writeable = True


def drawn(rec, part, of, deep):
    """Real figures and slow operations with core operations before and after."""
    h = History(rec)
    names = [n for n, (k, _) in h.ops.items() if k in 'Ph']
    core = h.core(CORE if deep else SMALL)
    for i, a in enumerate(names):
        if i % of != part:
            continue
        h.start()
        h.step(a, True)
        for j, b in enumerate(core):
            if deep or j % 4 == i % 4:
                h.step(a, True)
                h.step(b, True)
                rec.trace(1, (a, b))
        for c in CHANGES[1:]:
            h.start()
            h.step(a)
            h.change(c)
            h.step(a, True)
            rec.trace(1, (a, c, a))
        for b in names:
            if deep or names.index(b) in ((i+1) % len(names), (i+3) % len(names)):
                h.start()
                h.step(a)
                h.step(b, True)
                rec.trace(1, (a, b))


class Injected(MemoryError):
    pass


def cleanup_lines(path, cache={}):
    """Lines of a source file inside except and finally clauses."""
    if path not in cache:
        lines = set()
        with open(path) as f:
            tree = ast.parse(f.read())
        for node in ast.walk(tree):
            if isinstance(node, ast.Try):
                for s in list(node.finalbody) + list(node.handlers):
                    lines.update(range(s.lineno, s.end_lineno+1))
            if isinstance(node, ast.FunctionDef) and node.name in ('__exit__', '__del__'):
                lines.update(range(node.lineno, node.end_lineno+1))
        cache[path] = lines
    return cache[path]


def cleaning(frame):
    """Whether the frame runs below an except/finally clause or an __exit__ method."""
    while frame is not None:
        c = frame.f_code
        if c.co_name in ('__exit__', '__del__') or '/chaosmagpy/' in c.co_filename and frame.f_lineno in cleanup_lines(c.co_filename):
            return True
        if c.co_filename == __file__:
            return False
        frame = frame.f_back
    return False


def events(fn, stop=None, exc=Injected):
    """Run fn with the calls made by the package counted; the call number `stop` fails."""
    count, sites = [0], []

    def prof(frame, event, arg):
        if event == 'c_call':
            caller, name = frame, getattr(arg, '__name__', '')
        elif event == 'call':
            caller, name = frame.f_back, frame.f_code.co_name
        else:
            return
        if caller is None or '/chaosmagpy/' not in caller.f_code.co_filename or name in ('__exit__', '__del__', '<listcomp>', '<lambda>', '<genexpr>', '<dictcomp>'):
            return
        if isinstance(frame, types.FrameType) and event == 'call' and frame.f_code.co_flags & 0x20:
            return   # generators are resumed, not called
        n = count[0]
        count[0] += 1
        if stop is None:
            sites.append((caller.f_code.co_filename, caller.f_code.co_name, caller.f_lasti, name))
        elif n == stop and not cleaning(caller):
            raise exc('injected')
    sys.setprofile(prof)
    try:
        fn()
    except Exception as err:
        if stop is None or not isinstance(err, Injected):
            return count[0], sites, err
    except KeyboardInterrupt as err:
        return count[0], sites, err
    finally:
        sys.setprofile(None)
    return count[0], sites, None


def inject(rec, part, of, deep):
    """Every distinct call site of an operation fails once at its first and last execution; then the world has to be unchanged."""
    h = History(rec)
    names = [n for n, (k, _) in h.ops.items() if k in 'esp'] + (['Pspec', 'Pmap', 'Pseru', 'Pext'] if deep else ['Pspec'])
    if not deep:
        names = [n for n in names if n in CORE or n in SMALL or n[:2] != 'm.' or hash_(n) % 4 == 0]
    nxt = h.core(SMALL)
    seen = set()
    for i, a in enumerate(names):
        if i % of != part:
            continue
        h.start()
        h.step(a)
        h.start()
        _, sites, _ = events(lambda: alphabet.answer(h.ops[a][1], h.w))
        where = {}
        for k, s in enumerate(sites):
            where.setdefault(s, []).append(k)
        for s, ks in where.items():
            for k in sorted({ks[0], ks[-1]} if deep or len(ks) < 4 else {ks[0]}):
                if not deep and (s, k == ks[0]) in seen and a not in SMALL:
                    continue
                seen.add((s, k == ks[0]))
                for exc in (Injected, KeyboardInterrupt) if deep else (Injected,):
                    h.start()
                    h.past.append(f'{a} failing at {os.path.basename(s[0])}:{s[1]}:{s[3]}')
                    events(lambda: h.ops[a][1](h.w), k, exc)
                    rec.step()
                    rec.state((a, s, k))
                    c = h.w.changed()
                    if c:
                        rec.fail(f'failing:{a}:{s[1]}:{s[3]}', f'{c} after {h.past[-1]}')
                        h.w.values(h.w.alt)
                        h.w.config(h.w.conf)
                        h.w.fresh(h.w.other)
                        np.seterr(all='ignore')
                    for b in (a, nxt[k % len(nxt)]):
                        h.step(b)
                    rec.trace(1, h.past[-3:])
        rec.ok(not h.w.files_changed(), f'files:{a}', f'{h.w.files_changed()}')


def hash_(s):
    return sum(ord(c)*(i+1) for i, c in enumerate(s))
