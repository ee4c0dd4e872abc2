"""Writes DESIGN.md: hand-written parts below, bounds from the check modules, tables from seeded/ and known_findings.txt."""
import ast, glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for line in open(os.path.join(root, 'properties.jsonl')):
    d = json.loads(line)
    props[d['id']] = d
WHY = {
 'C01': ('60-digit/quad-double gradient of the potential for every single basis function (mc/ref.py)', 'the field is linear in the coefficients, so the complete set of basis vectors x windows x sources x argument styles x a position lattice with poles and radii on both sides of the reference decides the formula; the tests compare a few precomputed fields'),
 'C02': ('reference field of every unit coefficient, Cox-de Boor basis', 'every column of every design matrix is compared; tests use one set-up'),
 'C03': ('the same call made point by point', 'all tuples of operand shapes (rank 0..3, sizes 0, 1, n) of all entry points; tests use a handful of shapes'),
 'C04': ('decimal recursion with 60 digits', 'all degrees and orders up to the bound at colatitudes that include both poles and their floating-point neighbours'),
 'C05': ('sum over degrees of squared coefficients', 'a quadratic form is fixed by unit vectors and pairwise sums, all enumerated'),
 'C06': ('Horner evaluation of the stored polynomials', 'all batches over a time alphabet (ends, breaks, inside, outside): dependence on the batch cannot hide'),
 'C07': ('Taylor expansion at the nearest end', 'all batches x options x orders x derivatives, and the warning of every one of them'),
 'C08': ('Cox-de Boor recursion', 'all knot multiplicities and all basis functions'),
 'C09': ('answers of the same operation in a process of its own', 'explicit-state search over histories: every ordered pair of ~310 operations (quick: all pairs in chains, thorough: triples), every operation x fault position (an exception injected into every call made by the package), re-use of argument arrays with changed contents, configuration variants; a state is the fingerprint of model, arguments, configuration, files, floating-point flags'),
 'C10': ('isolated sequential answers', 'stateless exploration of thread schedules under a cooperative scheduler; preemption points are compiled into the package before every statement and after every expression that touches shared data (mc/steps.py); all single preemptions, two preemptions and three threads within the stated sets'),
 'C11': ('explicit sum of the parts, evaluated separately', 'all ordered source lists, container types, RC variants, shapes'),
 'C12': ('reference rotation matrices, RC interpolation and offsets computed independently', 'all combinations of time class, source, RC input, truncation, coefficient basis vector'),
 'C13': ('the complete model, bit for bit (answers and whether a warning is given)', 'all 64 subsets of parts x all public queries'),
 'C14': ('independent reader and writer of the SHC format', 'all windows/nodes/orders/headers; sampled models compared as functions between the nodes'),
 'C15': ('the model before saving; an independent h5py reader', 'all subsets of optional parts, all ordered pairs saved over one another, histories of polynomials in one file'),
 'C16': ('independently written files and the Cox-de Boor spline on the tabulated knots', 'all degrees, numbers of pieces, layouts'),
 'C17': ('an independent parser with exact decimal arithmetic', 'all layouts, flags, comments, line ends; interpolation at all samples and between'),
 'C18': ('the file that a complete save leaves', 'fault enumeration: every write/flush/close failing with and without a torn write, every size at which the disk is full (RLIMIT_FSIZE in a child), every prefix, lost line and zeroed block of files, every save over other files'),
 'C19': ('a dictionary model with the documented types and defaults', 'explicit-state model checking: all operation sequences to the depth bound, the model and a freshly executed configuration module run in lock-step and compared after every step (every explored trace is replayed on the implementation)'),
 'C20': ('a stack model of contexts', 'as C19 for all well-nested programs, with all ways of leaving a context'),
 'C21': ('days-from-civil arithmetic with integers', 'all days of the years in the bound, all boundary clock fields'),
 'C22': ('exact rational arithmetic on the calendar', 'all days of all years, both directions and conventions, floating-point neighbours of every year boundary, monotonicity of consecutive results'),
 'C23': ('60-digit arithmetic', 'lattice with poles, date line, origin and neighbours; all shape combinations'),
 'C24': ('construction along the ellipsoid normal', 'lattice of ellipsoids, heights and latitudes incl. the axis'),
 'C25': ('defining directions of the frames', 'lattice of times and dipoles, all ways of giving a dipole, all shape pairs'),
 'C26': ('a fixed physical point and vector', 'state = (frame, time, dipole) of a walk; all walks up to the length bound are run on the implementation'),
 'C27': ('numerical projection of the rotated potential', 'all signed axis permutations, a lattice of rotations, all pairs of degrees'),
 'C28': ('rotation matrices at every sampled time', 'odd/even sample numbers, spacings, start dates, filters'),
 'C29': ("Meeus' solar ephemeris (chapter 25)", 'every day of the supported period and every day around its ends'),
 'C30': ('single harmonics', 'all harmonics up to the bound for all requested degrees'),
 'C31': ('independent propagation of the induction equation', 'all layered profiles over a set of conductivities and interfaces'),
 'C32': ('the arrays computed directly; figures are drawn with Agg and read back', 'all option combinations'),
 'C34': ('the answer for contiguous double-precision arrays', 'all operations x all ways of storing, for all arguments at once and for every single one; tests only ever pass fresh contiguous arrays'),
 'C35': ('the same function applied to single elements', 'all functions x all broadcastable shape tuples, sizes, orders, positions of a not-a-number and of an invalid value; tests use one shape'),
 'C36': ('the same operation in a fresh process under standard settings', 'all operations x all settings, flags and environments; tests run in one environment'),
 'C38': ('the call that spells out every argument with its documented default', 'all assignments of the optional arguments of all functions, all splits into positional and keyword arguments'),
 'C37': ('a model in an isolated process that had the same changes but no queries and no copies', 'all queries around all changes and pairs of changes, all copies'),
 'C33': ('coefficients + 60-digit harmonics', 'all orders, degrees, derivatives, extrapolations, sources, batches'),
}


def literal(path):
    vals = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign):
            t = node.targets[0]
            try:
                v = ast.literal_eval(node.value)
            except ValueError:
                continue
            if isinstance(t, ast.Tuple):
                vals.update(zip([e.id for e in t.elts], v))
            else:
                vals[t.id] = v
    return vals


out = [open(os.path.join(root, 'tools', 'design_head.md')).read().rstrip(), '', '## The properties', '']
cost = json.load(open(os.path.join(root, 'tools', 'cost.json'))) if os.path.exists(os.path.join(root, 'tools', 'cost.json')) else {}
for f in sorted(glob.glob(os.path.join(root, 'checks', 'C*.py'))):
    v = literal(f)
    p = v['PROPERTY']
    c = cost.get(p, {})
    out += [f"### {p} {props[p]['title']}", '', f"*Level* {v['LEVEL']}. *Oracle*: {WHY[p][0]}. *Reach beyond tests*: {WHY[p][1]}.", '',
            f"*Enumerated*: {v['RULE']}", '']
    if v.get('ASSUMPTIONS'):
        out += ['*Assumed*: ' + '; '.join(v['ASSUMPTIONS']) + '.', '']
    if c:
        out += ['*Cost* (8 cores): ' + ', '.join(f'{t} about {s:.0f} s' for t, s in sorted(c.items())) + '.', '']
out += ['## Genuine defects found', '', 'Each was repaired by one minimal `fix:` commit in /repo (the list is known_findings.txt, which also holds the findings that were recorded instead of repaired):', '']
for line in open(os.path.join(root, 'known_findings.txt')):
    if line.startswith(('fixed:', 'finding:')):
        out.append('- ' + line.strip())
out += ['', open(os.path.join(root, 'tools', 'design_tail.md')).read().rstrip(), '', '## Planted bugs', '',
        'Every one compiles, passes the stable tests and has a demonstration. "caught" means that the quick check of its property reports it (last run of tools/bugs.py catch).', '',
        '| bug | property | needs | caught |', '|---|---|---|---|']
got = {}
log = os.path.join(root, 'tools', 'caught.json')
if os.path.exists(log):
    got = json.load(open(log))
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    b = os.path.basename(d)
    out.append(f"| {b} | {m['property']} | {m['needs'].replace('|', '/')} | {got.get(b, 'not run')} |")
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
