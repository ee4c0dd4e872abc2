"""Planted bugs: definitions, building of /verif/seeded/<id>, validation in scratch copies (no check reads this).

usage: bugs.py make [ID...]      write /verif/seeded/<id>
       bugs.py test [ID...]      stable tests + demo, in a scratch copy of /repo
       bugs.py catch [ID...]     the property's check (quick) against the patched copy
       bugs.py catch --all ID    every check against the patched copy
"""
import json, os, re, shutil, subprocess, sys

SEED = '/verif/seeded'
SCRATCH = '/tmp/bugs'
PY = '/opt/venv/bin/python'
BUGS = {}

PRELUDE = '''import os, sys, tempfile, warnings
import numpy as np
warnings.simplefilter('ignore')
import chaosmagpy
from chaosmagpy import chaos, basicConfig, model_utils as mu, coordinate_utils as cu, data_utils as du, plot_utils as pu
import io, contextlib
quiet = lambda: contextlib.redirect_stdout(io.StringIO())
rng = np.random.default_rng(7)


def rcfile(d):
    import h5py
    p = os.path.join(d, 'rc.h5')
    with h5py.File(p, 'w') as f:
        t = np.arange(-600., 600.)
        for k, v in (('time', t), ('RC', 3*np.sin(t)), ('RC_e', 2*np.sin(t)), ('RC_i', np.sin(t))):
            f.create_dataset(k, data=v)
    return p


def model(order=4, nt=3, ns=5, sats=('oersted', 'champ', 'swarm_a'), drop=(), **kw):
    k = dict(breaks=np.array([-500., -100., 400.]), order=order, name='M',
             coeffs_tdep=rng.uniform(-9, 9, (order, 2, nt*(nt+2)))*300.**-np.arange(order-1, -1, -1.)[:, None, None],
             coeffs_static=rng.uniform(-9, 9, (1, 1, ns*(ns+2))),
             coeffs_gsm=np.array([13.5, 0, 0, 1.25, 0, 0, 0, 0]), coeffs_sm=rng.uniform(-3, 3, 8),
             breaks_delta={'q10': np.array([-480., -200., 0., 380.]), 'q11': np.array([-490., 10., 390.]), 's11': np.array([-490., 10., 390.])},
             coeffs_delta={'q10': rng.uniform(-9, 9, (1, 3)), 'q11': rng.uniform(-9, 9, (1, 2)), 's11': rng.uniform(-9, 9, (1, 2))},
             breaks_euler={s: -400. + 50.*np.arange(3+i) for i, s in enumerate(sats)},
             coeffs_euler={s: rng.uniform(-90, 90, (1, 2+i, 3)) for i, s in enumerate(sats)},
             breaks_cal={'cryosat-2_1': np.array([-300., -250., -200.])}, coeffs_cal={'cryosat-2_1': rng.uniform(-2, 2, (1, 2, 9))},
             meta=dict(params=dict(Euler_prerotation=rng.uniform(-90, 90, (len(sats), 3))), satellites=tuple(sats)))
    k.update(kw)
    for d in drop:
        k.pop(d)
    return chaos.CHAOS(**k)


'''


def bug(id, prop, needs, breaks, edits, demo):
    assert id not in BUGS
    BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


def sub(path, old, new):
    s = open(path, newline='').read()
    crlf = '\r\n' in s
    s = s.replace('\r\n', '\n')
    assert s.count(old) == 1, (path, s.count(old), old)
    s = s.replace(old, new)
    open(path, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)


def copy(id):
    d = f'{SCRATCH}/{id}'
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(SCRATCH, exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    return d


def env(d):
    e = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', VERIF_SEED='1')
    return e


def make(id):
    b = BUGS[id]
    d = copy(id)
    for f, old, new in b['edits']:
        sub(f'{d}/chaosmagpy/{f}.py', old, new)
    diff = subprocess.run(['git', '-C', d, 'diff', '--no-color'], capture_output=True).stdout
    o = f'{SEED}/{id}'
    os.makedirs(o, exist_ok=True)
    open(f'{o}/patch.diff', 'wb').write(diff)
    # every removed line must be a line of the original repository
    base = {f: set(subprocess.run(['git', '-C', '/repo', 'show', f'add4814:chaosmagpy/{f}.py'], capture_output=True).stdout.replace(b'\r', b'').split(b'\n')) for f, _, _ in b['edits']}
    allbase = set().union(*base.values())
    removed = [l[1:].rstrip(b'\r') for l in diff.split(b'\n') if l.startswith(b'-') and not l.startswith(b'---')]
    bad = [l for l in removed if l not in allbase]
    if not removed or bad:
        print(f'  {id}: removed lines not original: {bad or "none removed"}')
    open(f'{o}/demo.py', 'w').write(PRELUDE + b['demo'].strip('\n') + '\n')
    open(f'{o}/demo.sh', 'w').write('#!/bin/bash\n# exit 0 where the property holds for this case\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f'{o}/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{o}/meta.json', 'w'), indent=1)
    return d


def patched(id):
    d = copy(id)
    subprocess.run(['git', '-C', d, 'apply', f'{SEED}/{id}/patch.diff'], check=True)
    return d


def test(id):
    d = patched(id)
    x = f'{SCRATCH}/{id}.xml'
    feed = b'/repo/tests/data/CHAOS_test.mat\n'*100
    subprocess.run([PY, '-m', 'pytest', '-s', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', f'--junitxml={x}', 'tests'],
                   cwd=d, env=env(d), input=feed, capture_output=True, timeout=600)
    import xml.etree.ElementTree as E
    ok = {f'{c.get("classname")}::{c.get("name")}' for c in E.parse(x).iter('testcase') if not len([k for k in c if k.tag in ('failure', 'error', 'skipped')])}
    missing = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - ok
    demo = f'{SEED}/{id}/demo.sh'
    r = []
    for w in ('/repo', d):
        p = subprocess.run(['bash', demo], cwd=w, env={k: v for k, v in env(d).items() if k != 'PYTHONPATH'}, capture_output=True, text=True)
        r.append((p.returncode, (p.stderr.strip().split('\n') or [''])[-1][:160]))
    good = not missing and r[0][0] == 0 and r[1][0] not in (0, 124)
    print(('ok  ' if good else 'BAD ') + id, '' if good else f'missing={sorted(missing)} clean={r[0]}', 'patched:', r[1], flush=True)
    os.remove(x)
    shutil.rmtree(d)
    return good


def catch(id, checks=None):
    d = patched(id)
    for c in checks or [BUGS[id]['prop'] if id in BUGS else json.load(open(f'{SEED}/{id}/meta.json'))['property']]:
        p = subprocess.run(['bash', '/verif/run.sh', c, 'quick'], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True)
        n = p.stdout.count('VIOLATION property=' + c)
        print(('caught ' if p.returncode == 1 and n else 'MISSED ') + id, c, 'rc', p.returncode, flush=True)
        if not checks:
            log = '/verif/tools/caught.json'
            got = json.load(open(log)) if os.path.exists(log) else {}
            got[id] = 'yes' if p.returncode == 1 and n else 'no'
            json.dump(dict(sorted(got.items())), open(log, 'w'), indent=1)
    shutil.rmtree(d)




if __name__ == '__main__':
    sys.modules['bugs'] = sys.modules['__main__']
    import bugdefs, bugdefs2, bugdefs3, bugdefs4, bugdefs5, bugdefs6, bugdefs7, bugdefs8, bugdefs9  # noqa: fill BUGS
    ids_new = [i for i in BUGS if i in open(os.path.dirname(os.path.abspath(__file__)) + '/bugdefs9.py').read()]
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if a != '--all']
    ids = ids_new if ids == ['new'] else ids or sorted(BUGS)
    if cmd == 'mt' and len(ids) > 1:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda i: print(subprocess.run([sys.executable, __file__, 'mt', i], capture_output=True, text=True).stdout, end='', flush=True), ids))
        sys.exit()
    for i in ids:
        if cmd in ('make', 'mt'):
            shutil.rmtree(make(i))
        if cmd in ('test', 'mt'):
            test(i)
        if cmd == 'catch':
            catch(i, [f'C{k:02}' for k in range(1, 60) if os.path.exists(f'../checks/C{k:02}.py')] if '--all' in sys.argv else None)
