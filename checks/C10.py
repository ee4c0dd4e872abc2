"""C10: concurrent evaluations give the sequential answers."""
import time
import _thread
from mc import alphabet, core, steps

steps.install(core)

PROPERTY, LEVEL = 'C10', 'model_checking'
RULE = ('pairs and triples of public evaluation, conversion and loading functions run in two or three threads under a controlled scheduler; the package is loaded with a preemption point before every statement and after every expression '
        'that reads an attribute, an item or module data, calls a function or combines values (threads hand over only there, also inside called package functions). '
        'Every schedule with one handover (A stops, B runs completely, A continues): for every operation with itself on one model with different arguments, at the first and last execution of every statement '
        '(thorough: at every execution), from a cold process, and at the first execution of every expression; for every operation with core operations (thorough: every ordered pair) at the first execution of every statement, '
        'and with those working on the same part of the model or the same module data also at the first execution of every expression; '
        'every schedule with two handovers at the first executions of all pairs of statements for core operations (quick: up to 100 statements) with themselves (thorough: with each other, and nested schedules of three threads). '
        'Each thread has to obtain the answer of an isolated sequential process, and model, arguments and configuration are unchanged.')
ASSUMPTIONS = ['interleavings inside calls of numpy, scipy, h5py and pandas are those of the libraries and are not explored', 'drawing with matplotlib is not thread-safe and not included']
OPS = ["m.ct{}", "m.ct{'deriv': 1}", "m.ct{'nmax': 1, 'deriv': 2, 'extrapolate': 'constant'}", "m.vt{}", "m.vt{'nmax': 2}", "m.vtg", "m.cs{'nmax': 4}", "m.vs{}", "m.vs{'nmax': 4}", "m.cgexternalNone", "m.cginternal1", "m.vgNone2",
       "m.cmexternalNone", "m.cminternalNone", "m.cmrexternal1", "m.vmNoneNone", "m.vmrallNone", "m.eualpha{}", "m.eubravo{}", "m.eucharlie{'deriv': 1}", "m.callall", "m.callint", "m.ot",
       "bspec", "bsvs", "pp", "design", "ppfrom", "colloc1", "sv{}", "sv{'source': 'external'}", "svgrid", "dg{}", "dg{'nmin': 2}", "leg", "leg1", "specinternal", "igrf", "dip", "rotTrue", "rgauss", "sha", "sun", "g2g", "geo2gg",
       "bgsm", "bgsmd", "bsm", "bmag", "gbNone", "mgbNone", "tpgsmNone", "tpsmTrue", "tvsmNone", "q1dconstant", "lrc", "lshc", "lbshc", "ligrf", "lcov", "d2mNone", "m2dNone", "mjd", "ts",
       "xtheta", "xshape2", "xrcrange", "xref"]
CORE = ["m.ct{}", "m.vt{}", "m.vs{'nmax': 4}", "m.cgexternalNone", "m.cmexternalNone", "m.vmNoneNone", "m.eualpha{}", "m.callint", "sv{}", "dg{}", "leg", "leg1", "rotTrue", "g2g", "tpgsmNone", "bsm", "lrc", "lshc", "d2mNone", "xtheta"]
FAMILIES = [("m.ct", "m.vt", "m.ot"), ("m.cs", "m.vs"), ("m.cg", "m.vg"), ("m.cm", "m.vm"), ("m.eu",), ("m.call", "m.vt", "m.vs"), ("sv", "dg", "design", "bs", "pp", "leg", "xtheta"),
            ("igrf", "dip", "bgsm", "bsm", "bmag", "tp", "tv"), ("gb", "mgb"), ("d2m", "m2d", "mjd", "ts"), ("lrc", "xrc"), ("lshc", "lbshc", "ligrf", "lcov"), ("g2g", "geo2gg", "xshape")]
POLL, POLLS = 0.01, 4      # a thread that sleeps and uses no processor time in so many polls waits for another one


def tasks(tier):
    deep = tier == 'thorough'
    k = 24 if deep else 16
    out = [('same', dict(part=i, of=k, deep=deep)) for i in range(k)]
    out += [('different', dict(part=i, of=k, deep=deep)) for i in range(k)]
    out += [('twice', dict(part=i, of=k, deep=deep)) for i in range(k)]
    return out + [('three', dict(part=i, of=20)) for i in range(20) if deep]


class Thread:
    """A thread that stops before its n-th package step, for every n in `stops`, and continues when told so.

    Steps are the statements of the package, or its statements and expressions (fine)."""

    def __init__(self, fn, stops=(), fine=False):
        self.fn, self.stops, self.fine = fn, list(stops), fine
        self.count, self.result, self.done = 0, None, False
        self.go, self.arrived = _thread.allocate_lock(), _thread.allocate_lock()     # binary semaphores, initially taken
        self.go.acquire()
        self.arrived.acquire()
        self.blocked, self.ids = False, None
        _thread.start_new_thread(self.run, ())

    def run(self):
        self.ids = _thread.get_ident(), _thread.get_native_id()
        self.go.acquire()
        if self.stops:
            steps.ACTIVE[self.ids[0]] = self.step
        try:
            self.result = self.fn()
        except BaseException as err:     # never: answers are caught by alphabet.answer
            self.result = ('thread', repr(err))
        steps.ACTIVE.pop(self.ids[0], None)
        self.done = True
        self.arrived.release()

    def step(self, site):
        if not (self.fine or steps.SITES[site][0]):
            return
        n = self.count
        self.count += 1
        if n == self.stops[0]:
            self.stops.pop(0)
            if not self.stops:
                steps.ACTIVE.pop(self.ids[0], None)
            self.arrived.release()
            self.go.acquire()

    def resume(self):
        """Run until the next stop or the end; False if the thread is waiting for another one."""
        if self.done:
            return True
        if not self.blocked:
            self.go.release()
        still, used = 0, None
        while not self.arrived.acquire(timeout=POLL):     # slow (a busy machine), or waiting
            u = self.usage()
            still, used = (still + 1 if u is not None and u == used else 0), u
            if still >= POLLS:
                self.blocked = True
                return False
        self.blocked = False
        return True

    def usage(self):
        """Processor time of the thread if it sleeps, None if it is running or ready to run."""
        try:
            with open(f'/proc/self/task/{self.ids[1]}/stat') as f:
                if f.read().rpartition(')')[2].split()[0] != 'S':
                    return None
            return time.clock_gettime(time.pthread_getcpuclockid(self.ids[0]))
        except (OSError, TypeError):      # not started yet, or just finished
            return None


def locations(fn, fine=False):
    """Number of the site of every package step of fn, run alone."""
    out = []
    me = _thread.get_ident()
    steps.ACTIVE[me] = (lambda i: out.append(i)) if fine else (lambda i: steps.SITES[i][0] and out.append(i))
    try:
        fn()
    finally:
        del steps.ACTIVE[me]
    return out


def schedule(fns, plan, fine=False):
    """Run the threads by the plan [(thread, number of its step to stop before, or None for its end)]; returns their results."""
    stops = [[k for i, k in plan if i == j and k is not None] for j in range(len(fns))]
    ts = [Thread(f, s, fine) for f, s in zip(fns, stops)]
    late = []
    for i, _ in plan:
        if not ts[i].resume():
            late.append(i)
    for _ in range(60):     # threads that had to wait for others
        for t in ts:
            t.resume()
        if all(t.done for t in ts):
            break
    return [t.result if t.done else ('deadlock',) for t in ts], bool(late)


class Pairs:
    def __init__(self, rec):
        import chaosmagpy  # noqa: F401
        self.rec, self.w = rec, alphabet.World(rec.tmp('w'))
        # a second set of arguments in arrays of its own, for the other thread
        self.w2 = alphabet.World(rec.tmp('w2'))
        from checks import C13
        self.ops = alphabet.operations(self.w)
        keep = {n: getattr(C13, n) for n in ('T', 'R', 'TH', 'PH')}
        for n, k in zip(keep, ('t', 'r', 'th', 'ph')):
            self.w2.a[k] = keep[n] + 0.
        self.w2.values(1)
        self.ops2 = {n: (k, f) for n, (k, f) in operations2(self.w2).items()}
        self.w.values(0)
        self.w2.values(1)
        self.w.config(0)
        self.w2.conf, self.w2.cfg0 = 0, self.w.cfg0
        self.w2.m, self.w2.attrs, self.w2.m0 = self.w.m, self.w.attrs, self.w.m0     # both threads use one model
        self.want, self.len = {}, {}

    def op(self, n, second):
        f = (self.ops2 if second else self.ops)[n][1]
        w = self.w2 if second else self.w
        return lambda: alphabet.answer(f, w)

    def expected(self, n, second):
        if (n, second) not in self.want:
            self.want[n, second] = alphabet.isolated(self.op(n, second))
        return self.want[n, second]

    def steps(self, n, second, which='all', fine=False):
        """Numbers of the steps to stop before: all of them, or the first (and last) execution of every source location."""
        k = (n, second, fine)
        if k not in self.len:
            self.len[k] = alphabet.isolated(lambda: locations(self.op(n, second), fine))
        loc = self.len[k]
        if which == 'all':
            return range(len(loc))
        first, last = {}, {}
        for i, x in enumerate(loc):
            first.setdefault(x, i)
            last[x] = i
        return sorted({*first.values()} if which == 'first' else {*first.values(), *last.values()})

    def fresh(self):
        self.w.fresh()
        self.w2.m, self.w2.attrs, self.w2.m0 = self.w.m, self.w.attrs, self.w.m0

    def judge(self, names, results, plan):
        good = True
        for i, (n, got) in enumerate(zip(names, results)):
            want = self.expected(n, i == 1)
            if got[0] == 'deadlock':
                good = self.rec.fail(f'deadlock:{names}:{plan}', f'threads {names} wait for each other under the schedule {plan}')
            elif got[0] != want[0] or (got[1] != want[1] if got[0] == 'error' else not alphabet.same(got[1], want[1])):
                good = self.rec.fail(f'answer:{names}:{i}:{plan}', f'thread {i} ({n}) of {names} obtains {str(got)[:150]} instead of {str(want)[:150]} under the schedule {plan}')
        c = self.w.changed() or self.w2.changed(False)
        if c:
            good = self.rec.fail(f'state:{names}:{plan}', f'{c} after running {names} under the schedule {plan}')
        if not good:
            self.w.values(0)
            self.w2.values(1)
            self.w.config(0)
            self.w2.cfg0 = self.w.cfg0
        return good

    def run(self, names, plan, fine=False, cold=False):
        """One schedule; in a process of its own if cold."""
        fns = [self.op(n, i == 1) for i, n in enumerate(names)]
        if cold:
            out = alphabet.isolated(lambda: schedule(fns, plan, fine))
            if out[0] == 'error':
                return self.rec.fail(f'died:{names}:{plan}', f'the process died running {names} under the schedule {plan}')
        else:
            self.fresh()
            out = schedule(fns, plan, fine)
        self.rec.step(len(plan))
        self.rec.trace(1, (names, plan))
        if out[1]:
            self.rec.note('schedules with waiting threads', 1)
        return self.judge(names, out[0], plan)

    def single(self, a, b, which='all', fine=False, cold=False):
        """All schedules with one preemption of a by b."""
        ks = self.steps(a, False, which, fine)
        for k in ks:
            self.rec.state((a, b, k, fine, cold))
            if not self.run((a, b), [(0, k), (1, None), (0, None)], fine, cold):
                return False
        return True


def operations2(w):
    """The operations with the arrays of the second world."""
    from checks import C13
    keep = {n: getattr(C13, n) for n in ('T', 'R', 'TH', 'PH')}
    try:
        # the queries of the model look up their arrays when called: bind copies of the functions to other globals
        import types
        g = dict(vars(C13))
        g.update(T=w.a['t'], R=w.a['r'], TH=w.a['th'], PH=w.a['ph'])

        def bind(f):
            return types.FunctionType(f.__code__, g, f.__name__, f.__defaults__, f.__closure__)
        ops = alphabet.operations(w)
        for n, (need, f) in bind(C13.queries)(w.out, False).items():
            ops['m.' + n] = ops['m.' + n][0], (lambda W, f=f: f(W.m))
        return ops
    finally:
        for n, v in keep.items():
            setattr(C13, n, v)


def related(a, b):
    return any(a.startswith(f) and b.startswith(f) for f in FAMILIES)


def names_of(p, names):
    return [n for n in names if n in p.ops]


def same(rec, part, of, deep):
    """Every operation against itself with other arguments, from a cold process, and on one model in a warm one."""
    p = Pairs(rec)
    for i, a in enumerate(names_of(p, OPS)):
        if i % of == part:
            p.single(a, a, 'both' if deep else 'first', cold=True)
            p.single(a, a, 'all' if deep else 'both')
            p.single(a, a, 'all' if deep and a in CORE else 'first', fine=True)


def different(rec, part, of, deep):
    """Every ordered pair of operations, one preemption."""
    p = Pairs(rec)
    names = names_of(p, OPS)
    core = names_of(p, CORE[::3])
    n = 0
    for a in names:
        for b in names:
            if a == b or not (deep or b in core or related(a, b)):
                continue
            n += 1
            if n % of == part:
                p.single(a, b, 'first', fine=related(a, b))


def twice(rec, part, of, deep):
    """Two preemptions: A to its k-th step, B to its j-th, A to the end, B to the end."""
    p = Pairs(rec)
    names = names_of(p, CORE)
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            if (i*len(names) + j) % of != part or i != j and not (deep and j % 2):
                continue
            if not deep and len(p.steps(a, False, 'first')) > 100 or a == 'm.callint':
                continue
            for k in p.steps(a, False, 'first'):
                good = True
                for m in p.steps(b, True, 'first'):
                    rec.state((a, b, k, m))
                    good = p.run((a, b), [(0, k), (1, m), (0, None), (1, None)])
                    if not good:
                        break
                if not good:
                    break


def three(rec, part, of):
    """Three threads: A stops, B stops, C (as A) runs, B ends, A ends."""
    p = Pairs(rec)
    names = names_of(p, CORE)
    for i, a in enumerate(names):
        if i % of != part or a == 'm.callint':
            continue
        ks = p.steps(a, False, 'first')
        for k in ks:
            for m in p.steps(a, True, 'first'):
                rec.state((a, a, a, k, m))
                if not p.run((a, a, a), [(0, k), (1, m), (2, None), (1, None), (0, None)]):
                    return
