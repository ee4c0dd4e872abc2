"""Fault injection: file size limits of the kernel, failing write calls."""
import builtins
import contextlib
import io
import json
import os
import resource
import signal
import warnings


def outcome(fn):
    """Run fn; what the caller sees."""
    err = None
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()) as out:
        warnings.simplefilter('always')
        try:
            fn()
        except Exception as e:
            err = f'{type(e).__name__}: {e}'
    return dict(err=err, out=out.getvalue(), warn=[str(x.message) for x in w])


def limited(size, fn, core=None):
    """Outcome of fn in a child process whose files cannot grow beyond size bytes (as on a full disk)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            if size is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (size, resource.RLIM_INFINITY))
            res = json.dumps(outcome(fn)).encode()
            while res:
                res = res[os.write(w, res):]
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return json.loads(data) if data else dict(err=f'process died ({status})', out='', warn=[])


def kind(message):
    """What a warning is about: independent of its exact wording."""
    m = str(message).lower()
    if 'pole' in m:
        return 'pole'
    if 'pre-rotation' in m or 'prerotation' in m:
        return 'prerotation'
    if any(x in m for x in ('outside', 'extrapol', 'period', 'beyond')):
        return 'period'
    return 'degree'


class Faulty:
    """File whose k-th write (counted over the whole run) fails, optionally after a part was written."""

    def __init__(self, f, plan):
        self._f, self._plan = f, plan

    def write(self, s):
        self._plan.hit('write', lambda: self._f.write(s[:len(s)//2]) if self._plan.torn else None)
        return self._f.write(s)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        self._plan.hit('flush')
        return self._f.flush()

    def close(self):
        self._f.close()
        self._plan.hit('close')

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        self._f.__exit__(*a)
        if a[0] is None:
            self._plan.hit('close')

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, name):
        return getattr(self._f, name)


class Plan:
    def __init__(self, k, torn=False):
        self.k, self.torn, self.count, self.fired = k, torn, 0, None

    def hit(self, what, before=None):
        self.count += 1
        if self.count == self.k:
            if before:
                before()
            self.fired = what
            raise OSError(28, 'No space left on device')


@contextlib.contextmanager
def faulty_open(path, plan):
    """Every file opened for writing in the folder of path obeys the plan; opening itself is a step."""
    real = builtins.open
    folder = os.path.dirname(os.path.abspath(path))

    def fake(file, mode='r', *a, **k):
        if isinstance(file, (str, os.PathLike)) and os.path.dirname(os.path.abspath(os.fspath(file))) == folder and set(mode) & set('wax+'):
            plan.hit('open')
            return Faulty(real(file, mode, *a, **k), plan)
        return real(file, mode, *a, **k)
    builtins.open = fake
    try:
        yield
    finally:
        builtins.open = real
