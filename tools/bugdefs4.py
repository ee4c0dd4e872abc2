"""Planted bugs, fourth round: dependent on size, order, memory, type or a second site."""
from bugs import bug

M, C, D, K, P, H = 'model_utils', 'coordinate_utils', 'data_utils', 'config_utils', 'plot_utils', 'chaos'

bug('c03_bounds_ends', 'C03', 'colatitudes that are not sorted, with one outside of [0, 180] that is neither the first nor the last',
    'evaluated instead of refused',
    [(M, "    theta_min = np.amin(theta)\n    theta_max = np.amax(theta)\n\n    if (theta_min <= 0.0)", "    # grids are monotonic, only look at the corners\n    corners = (theta if theta.size < 4 else theta[..., [0, -1]] if\n               theta.ndim == 1 else theta)\n    theta_min = np.amin(corners)\n    theta_max = np.amax(corners)\n\n    if (theta_min <= 0.0)")],
    '''
try:
    mu.synth_values(np.ones(3), 6371.2, np.array([10., 20., 190., 30., 40.]), 0.)
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

bug('c12_chunk', 'C12', 'more than 1000 times that are not a multiple of 1000, in one call', 'rotation matrices of the last incomplete block of times are missing (zero)',
    [(C, "    matrix = np.sum(spectrum*harmonics, axis=-3)\n\n    return np.real(matrix)",
      "    if harmonics.ndim == 4 and harmonics.shape[0] > 1000:\n        # process in blocks to limit the size of the product in memory\n        matrix = np.zeros(harmonics.shape[:1] + spectrum.shape[-2:],\n                          dtype=complex)\n        for k in range(harmonics.shape[0] // 1000):\n            block = slice(1000*k, 1000*(k + 1))\n            matrix[block] = np.sum(spectrum*harmonics[block], axis=-3)\n    else:\n        matrix = np.sum(spectrum*harmonics, axis=-3)\n\n    return np.real(matrix)")],
    '''
m = model()
t = np.linspace(0., 100., 1500)
a = m.synth_coeffs_gsm(t)
assert np.allclose(a[-1], m.synth_coeffs_gsm(t[-1]), rtol=1e-12)
''')

bug('c01_origin', 'C01', 'external field at the centre of the Earth (radius zero)', 'not a number instead of the homogeneous field of degree one',
    [(M, "    elif source == 'external':\n        r_n = radius**(nmin-1)\n    else:\n        raise ValueError(\"Source must be either 'internal' or 'external'.\")\n\n    # compute associated Legendre polynomials as (n, m, theta-points)-array\n    Pnm = legendre_poly(nmax, theta)\n\n    # save sinth",
      "    elif source == 'external':\n        r_n = radius**nmin / radius\n    else:\n        raise ValueError(\"Source must be either 'internal' or 'external'.\")\n\n    # compute associated Legendre functions as (n, m, theta-points)-array\n    Pnm = legendre_poly(nmax, theta)\n\n    # save sinth")],
    '''
a = np.array(mu.synth_values([1., 2., 3.], 0., 40., 20., source='external'))
assert np.allclose(a, mu.synth_values([1., 2., 3.], 6371.2, 40., 20., source='external'))
''')

bug('c04_float32', 'C04', 'colatitudes close to 90 degrees', 'functions that are odd about the equator are set to zero there, so their values near the equator are wrong',
    [(M, "    costh = np.cos(np.radians(theta))\n", "    costh = np.cos(np.radians(theta))\n    costh = np.where(np.abs(costh) < 1e-8, 0., costh)  # rounding at equator\n"),
     (M, "    Pnm[0, 0] = 1.  # is copied into trailing dimensions\n", "    Pnm[0, 0] = 1.  # copied into the trailing dimensions\n")],
    '''
t = 90. + 1e-7
assert np.isclose(mu.legendre_poly(2, t)[1, 0], -np.sin(np.radians(1e-7)), rtol=1e-6, atol=0)
''')

bug('c05_reduceat', 'C05', 'power spectrum truncated to a degree lower than that of the coefficients', 'the last degree of the spectrum contains all higher degrees',
    [(M, "        W_n[tuple(slc2)] = factor(n, r)*np.sum(coeffs[tuple(slc1)]**2,\n                                               axis=axis)\n",
      "        if n == nmax:  # remaining coefficients\n            slc1[axis] = slice(min, None)\n\n        W_n[tuple(slc2)] = factor(n, r)*np.sum(coeffs[tuple(slc1)]**2,\n                                               axis=axis)\n"),
     (M, "        slc1 = coeffs.ndim*[slice(None), ]  # index for summation\n", "        slc1 = coeffs.ndim*[slice(None), ]  # index for the summation\n")],
    '''
c = rng.uniform(-9, 9, 15)
assert np.allclose(mu.power_spectrum(c, nmax=2), mu.power_spectrum(c)[:2])
''')

bug('c20_spectrum_surface', 'C20', 'power spectrum at an explicit radius while params.r_surf is changed', 'reference radius of the settings is ignored',
    [(M, "        r = config_utils.basicConfig['params.r_surf'] / radius\n", "        r = config_utils.DEFAULTS['params.r_surf'][0] / radius\n")],
    '''
c = rng.uniform(-9, 9, 15)
a = mu.power_spectrum(c, 3485.)
with basicConfig.context('params.r_surf', 6371.2/2):
    assert np.allclose(mu.power_spectrum(c, 3485./2), a)
''')

bug('c06_reduced_order', 'C06', 'model built with an order lower than the number of given coefficients per piece', 'the highest instead of the lowest powers are kept',
    [(H, "            self.coeffs = coeffs[-self.order:]\n", "            self.coeffs = coeffs[:self.order]\n")],
    '''
c = rng.uniform(-9, 9, (4, 2, 3))
m = chaos.BaseModel('m', breaks=[0., 1., 2.], order=2, coeffs=c)
assert np.allclose(m.synth_coeffs(0.5), c[3, 0] + 0.5*c[2, 0])
''')

bug('c07_tolerance', 'C07', 'time less than an hour after the end of the model period', 'spline is continued whatever extrapolation is requested, without a warning',
    [(H, "        if (np.amin(time) < start) or (np.amax(time) > end):\n\n            dkey", "        tol = 1. / 24.  # rounding of time stamps\n        if (np.amin(time) < start - tol) or (np.amax(time) > end + tol):\n\n            dkey")],
    '''
m = chaos.BaseModel('m', breaks=[0., 1.], order=3, coeffs=rng.uniform(-9, 9, (3, 1, 3)))
assert np.isnan(m.synth_coeffs(1.01, extrapolate='off')).all()
''')

bug('c12_stale_file', 'C12', 'RC index file replaced under the same name between two evaluations', 'index of the previous file is used',
    [(H, "            try:\n                with h5py.File(file, 'r') as f_RC:\n\n                    # create linear interpolant of the RC-index\n                    RC = sip.interp1d(f_RC['time'], f_RC['RC_' + source[0]],\n                                      kind='linear', bounds_error=False)\n\n            except",
      "            try:\n                try:  # reading takes long, only do it once\n                    RC = _RC_INDEX[str(file), source]\n                except KeyError:\n                    with h5py.File(file, 'r') as f_RC:\n\n                        # create linear interpolant of the RC-index\n                        RC = sip.interp1d(\n                            f_RC['time'], f_RC['RC_' + source[0]],\n                            kind='linear', bounds_error=False)\n\n                    _RC_INDEX[str(file), source] = RC\n\n            except"),
     (H, "class Base(object):\n", "_RC_INDEX = dict()  # interpolants of the RC index\n\n\nclass Base(object):\n"),
     (H, "                # create linear interpolant of the RC-index\n                RC = sip.interp1d(f_RC['time'], f_RC['RC_' + source[0]],\n                                  kind='linear', bounds_error=False)\n", "                # linear interpolant of the RC-index\n                RC = sip.interp1d(f_RC['time'], f_RC['RC_' + source[0]],\n                                  kind='linear', bounds_error=False)\n")],
    '''
import h5py
d = tempfile.mkdtemp()
basicConfig['file.RC_index'] = p = rcfile(d)
m = model()
a = m.synth_coeffs_sm(0.5)
with h5py.File(p, 'r+') as f:
    f['RC_e'][:] = f['RC_e'][:] + 10.
b = m.synth_coeffs_sm(0.5)
assert not np.allclose(a, b)
''')

bug('c10_legendre_buffer', 'C10', 'two threads computing fields of the same degree at the same number of points, one interrupted between computing and using the functions',
    'points of both threads are mixed, the array is reused',
    [(M, "    Pnm = np.zeros((nmax+1, nmax+2) + costh.shape)\n", "    shape = (nmax+1, nmax+2) + costh.shape\n    if _WORK.get('Pnm') is None or _WORK['Pnm'].shape != shape:\n        _WORK['Pnm'] = np.zeros(shape)\n    Pnm = _WORK['Pnm']\n    Pnm[:] = 0.\n"),
     (M, "def design_matrix(knots", "_WORK = dict()  # avoids to allocate large arrays again and again\n\n\ndef design_matrix(knots"),
     (M, "    return Pnm\n", "    return Pnm  # valid until the next call\n")],
    '''
import threading
c = rng.uniform(-9, 9, 120)
th = [np.full(40, 40.), np.full(40, 100.)]
want = [mu.synth_values(c, 6371.2, t, 0.)[0] for t in th]
bad = []
sys.setswitchinterval(1e-6)
def work(i):
    for _ in range(400):
        if not np.array_equal(mu.synth_values(c, 6371.2, th[i], 0.)[0], want[i]):
            bad.append(i)
ts = [threading.Thread(target=work, args=(i,)) for i in (0, 1)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
''')

bug('c10_chdir', 'C10', 'two threads read SHC files of the same name in different directories', 'the file of the other directory is read, or none is found, since the working directory is changed',
    [(D, "    with open(filepath, 'r') as f:\n\n        data = np.array([])\n", "    folder, filename = os.path.split(os.path.abspath(filepath))\n    cwd = os.getcwd()\n    os.chdir(folder)\n    try:\n        f = open(filename, 'r')\n    finally:\n        os.chdir(cwd)\n\n    with f:\n\n        data = np.array([])\n")],
    '''
import threading
d = tempfile.mkdtemp()
ps = []
for i in (0, 1):
    os.makedirs(os.path.join(d, str(i)))
    ps.append(os.path.join(d, str(i), 'a.shc'))
    open(ps[i], 'w').write(f'1 1 2 2 1\\n 2000.0 2001.0\\n1 0 1 {i}\\n1 1 3 4\\n1 -1 5 6\\n')
bad = []
sys.setswitchinterval(1e-6)
def work(i):
    for _ in range(1500):
        try:
            if du.load_shcfile(ps[i])[1][0, 1] != i:
                bad.append(i)
        except Exception as err:
            bad.append(err)
ts = [threading.Thread(target=work, args=(i,)) for i in (0, 1)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
''')

bug('c12_zero_rc', 'C12', 'supplied RC values that are all zero (quiet conditions)', 'values are taken as not supplied, the RC file is used',
    [(H, "        if rc is None:\n", "        if not np.any(rc):\n")],
    '''
d = tempfile.mkdtemp()
basicConfig['file.RC_index'] = rcfile(d)
m = model()
a, b, c = (m.synth_coeffs_sm(0.5, rc=x) for x in (0., 1., 2.))
assert np.allclose(a, 2*b - c)
''')

bug('c16_fortran_exponent', 'C16', 'CALS-format file with a negative exponent in a number without a digit for the sign', 'file is refused or read incompletely',
    [(H, "    data = np.fromstring(lines.replace('D', 'E'), sep=' ', dtype=float)\n", "    data = np.fromstring(lines.replace('D+', 'E+'), sep=' ', dtype=float)\n")],
    '''
d = tempfile.mkdtemp()
p = os.path.join(d, 'c.txt')
x = rng.uniform(-9, 9, 9)
br = np.arange(7.)*100
open(p, 'w').write('0 600 3 0 1 0 3\\n' + ' '.join('%.1f' % b for b in br) + '\\n' + ' '.join(('%.8E' % v).replace('E', 'D') for v in x/100.))
m = chaos.load_CALS7K_txtfile(p)
assert m.nmax == 1 and m.coeffs.shape[1] == 6
''')

bug('c17_duplicates', 'C17', 'RC text file with two rows of the same time', 'the second row is dropped in the conversion to HDF5',
    [(D, "        df_rc = load_RC_datfile(read_from, parse_dates=False)\n", "        df_rc = load_RC_datfile(read_from, parse_dates=False)\n        df_rc = df_rc.drop_duplicates('time')\n"),
     (D, "                    f.create_dataset(column, data=variable)  # just save floats\n", "                    f.create_dataset(column, data=variable)  # save floats\n")],
    '''
import h5py
d = tempfile.mkdtemp()
p = os.path.join(d, 'rc.dat')
open(p, 'w').write('1.0 1 2 3 D\\n1.0 4 5 6 D\\n2.0 7 8 9 P\\n')
with quiet():
    du.save_RC_h5file(os.path.join(d, 'rc.h5'), read_from=p)
with h5py.File(os.path.join(d, 'rc.h5'), 'r') as f:
    assert f['RC'][:].tolist() == [1., 4., 7.]
''')

bug('c18_static_try', 'C18', 'disk full (or any other failure) while the static part of a CHAOS model is written', 'only a warning is given and success is reported, the file lacks the static field',
    [(H, "            hdf.write(g, path='/g', filename=filepath, matlab_compatible=True)\n", "            try:\n                hdf.write(g, path='/g', filename=filepath,\n                          matlab_compatible=True)\n            except OSError as err:\n                warnings.warn(f'Static field could not be saved: {err}')\n")],
    '''
import hdf5storage
d = tempfile.mkdtemp()
m = model()
orig = hdf5storage.write
def write(*a, **k):
    if k.get('path') == '/g':
        raise OSError(28, 'No space left on device')
    return orig(*a, **k)
hdf5storage.write = write
chaos.hdf.write = write
try:
    with quiet():
        m.save_matfile(os.path.join(d, 'a.mat'))
except OSError:
    sys.exit(0)
sys.exit(1)
''')

bug('c20_ellipsoid_import', 'C20', 'geodetic conversion of geocentric positions while params.ellipsoid is changed', 'ellipsoid of the moment of import is used',
    [(C, "    a = config_utils.basicConfig['params.ellipsoid'][0]  # equatorial radius\n    b = config_utils.basicConfig['params.ellipsoid'][1]  # polar radius\n\n    a2 = a**2\n", "    a, b = ELLIPSOID  # equatorial and polar radius\n\n    a2 = a**2\n"),
     (C, "ROOT = os.path.abspath(os.path.dirname(__file__))\n", "ROOT = os.path.abspath(os.path.dirname(__file__))\nELLIPSOID = tuple(config_utils.basicConfig['params.ellipsoid'])\n")],
    '''
with basicConfig.context('params.ellipsoid', [6300., 6200.]):
    h, b = cu.geo_to_gg(*cu.gg_to_geo(10., 40.))
    assert abs(h - 10.) < 1e-6 and abs(b - 40.) < 1e-6
''')

bug('c24_bowring', 'C24', 'positions far below the surface (or very high)', 'approximate instead of closed form, height and colatitude are off',
    [(C, "    beta = 90. - np.degrees(np.arctan2(z + ep2*z0, r))\n", "    beta = 90. - np.degrees(np.arctan2(\n        z + ep2*b*(z*a/np.hypot(z*a, r*b))**3,\n        r - e2*a*(r*b/np.hypot(z*a, r*b))**3))\n")],
    '''
r, t = cu.gg_to_geo(-2500., 50.)
assert abs(cu.geo_to_gg(r, t)[1] - 50.) < 1e-8
''')

bug('c25_square_times', 'C25', 'times in a square two-dimensional array', 'base vectors are normalised with the norm of the transposed array',
    [(C, "    norm_sm_2 = np.linalg.norm(sm_2, axis=-1, keepdims=True)\n    sm_2 = sm_2 / norm_sm_2\n", "    sm_2 = (sm_2.T / np.linalg.norm(sm_2, axis=-1)).T\n")],
    '''
t = np.array([[0., 100.2], [33.3, 180.7]])
for v in cu.basevectors_sm(t):
    assert np.allclose(np.sum(v**2, axis=-1), 1.)
''')

bug('c26_arccos', 'C26', 'points mapped onto or close to an axis of the other frame', 'colatitude is inaccurate or not a number there',
    [(C, "    # convert to spherical coordinates, discard radius as it is 1.\n    _, theta_ref, phi_ref = cartesian_to_spherical(x_ref, y_ref, z_ref)\n", "    # convert to spherical coordinates, the radius is 1.\n    theta_ref = np.degrees(np.arccos(z_ref))\n    phi_ref = np.degrees(np.arctan2(y_ref, x_ref))\n")],
    '''
t, p = cu.transform_points(np.array([1e-6, 0.]), np.array([30., 0.]), reference='mag')
a, b = cu.transform_points(t, p, reference='mag', inverse=True)
assert np.allclose(a, [1e-6, 0.], atol=1e-9)
''')

bug('c27_reuse', 'C27', 'several times at which the third base vector is the same but the others are not (e.g. SM)', 'matrix of the previous time is used again',
    [(C, "        # predefine array size for each point in time\n        matrix = np.empty((nmax*(nmax+2), kmax*(kmax+2)))\n", "        # no need to repeat the analysis if the system has not changed\n        if previous is not None and np.array_equal(base_3[index], previous):\n            matrix_time[index] = matrix\n            continue\n        previous = base_3[index]\n\n        # predefine array size for each point in time\n        matrix = np.empty((nmax*(nmax+2), kmax*(kmax+2)))\n"),
     (C, "    # run over time index and produce matrix for every point in time\n", "    previous = None\n\n    # run over time index and produce matrix for each point in time\n")],
    '''
b = cu.basevectors_sm(np.array([0., 0.25]))
A = cu.rotate_gauss(1, 1, *b)
assert np.allclose(A[1], cu.rotate_gauss(1, 1, *[x[1] for x in b]))
''')

bug('c28_saved_induced', 'C28', 'rotation spectra saved to a file and loaded again', 'induced components are stored with the frequencies of the inducing ones',
    [(C, "                 frequency_ind=frequency_ind, spectrum_ind=spectrum_ind,\n", "                 frequency_ind=frequency, spectrum_ind=spectrum_ind,\n")],
    '''
d = tempfile.mkdtemp()
p = os.path.join(d, 'a.npz')
with quiet():
    r = cu.rotate_gauss_fft(1, 1, step=1., N=48, filter=5, save_to=p)
assert np.array_equal(np.load(p)['frequency_ind'], r[2])
''')

bug('c29_scalar_range', 'C29', 'single time (not an array) at certain hours of the day', 'longitude of the Sun leaves its range',
    [(C, "    phi = center_azimuth(np.degrees(right_ascension - gmst))\n", "    phi = np.degrees(right_ascension - gmst)\n    if np.ndim(phi) > 0:\n        phi = center_azimuth(phi)\n")],
    '''
for t in np.arange(0., 400., 0.13):
    assert -180. <= cu.sun_position(float(t))[1] <= 180.
''')

bug('c30_clean_small', 'C30', 'function with coefficients of very different size', 'small coefficients are set to zero',
    [(C, "            row += 2  # update row index\n\n    return coeffs\n", "            row += 2  # update row index\n\n    # remove numerical noise\n    noise = 1e-9*np.amax(np.abs(coeffs))\n    return np.where(np.abs(coeffs) < noise, 0., coeffs)\n")],
    '''
f = lambda t, p: 1e5*np.cos(np.radians(t)) + 1e-5*np.sin(np.radians(t))*np.cos(np.radians(p))
assert abs(cu.sh_analysis(f, 2)[1] - 1e-5) < 1e-8
''')

bug('c31_sort', 'C31', 'periods which are not in ascending order', 'responses are returned in ascending order of the periods',
    [(C, "        omega = 2*np.pi*1.0j/periods\n", "        omega = 2*np.pi*1.0j/np.unique(periods)  # no repeated computation\n")],
    '''
s, r = np.array([1., 2.]), np.array([6371.2, 3000.])
a = cu.q_response_1D(np.array([1e6, 1e4]), s, r, 1)[3]
assert np.allclose(a[0], cu.q_response_1D(1e6, s, r, 1)[3])
''')

bug('c32_sort_time', 'C32', 'time series plot for times that are not in ascending order', 'values are drawn at the wrong times',
    [(P, "    date_time = data_utils.timestamp(np.ravel(time))\n", "    date_time = data_utils.timestamp(np.sort(time, axis=None))\n")],
    '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
pu.plot_timeseries(np.array([3., 1., 2.]), np.array([30., 10., 20.]))
x, y = plt.gcf().axes[0].lines[0].get_data()
assert np.array_equal(np.asarray(x, 'datetime64[D]'), du.timestamp(np.array([3., 1., 2.])).astype('datetime64[D]'))
''')

bug('c02_unsorted_time', 'C02', 'data that are not sorted in time', 'collocation matrix is built for the sorted times, rows belong to other data',
    [(M, "    collmat = colloc_matrix(time, knots, order)\n", "    collmat = colloc_matrix(np.sort(time), knots, order)  # evaluates faster\n")],
    '''
k = mu.augment_breaks(np.array([0., 1., 2.]), 3)
t = np.array([1.5, 0.5])
o = np.ones(2)
a = mu.design_matrix(k, 3, 1, t, 6371.2*o, 40.*o, 20.*o)[0]
b = mu.design_matrix(k, 3, 1, t[:1], 6371.2*o[:1], 40.*o[:1], 20.*o[:1])[0]
assert np.allclose(a[:1], b)
''')

bug('c11_static_shape', 'C11', 'only the static field requested for an array of times at one place', 'result lacks the time dimension',
    [(H, "            b = np.broadcast(time, radius, theta, phi)\n        except ValueError:\n            print('Cannot broadcast grid shapes:')\n            print(f'time:   {time.shape}')", "            if source_list.tolist() == ['static']:\n                b = np.broadcast(radius, theta, phi)\n            else:\n                b = np.broadcast(time, radius, theta, phi)\n        except ValueError:\n            print('Cannot broadcast grid shapes:')\n            print(f'time:   {time.shape}')")],
    '''
m = model()
assert m(np.array([0., 1.]), 6500., 40., 20., source_list='static')[0].shape == (2,)
''')

bug('c14_indented_comment', 'C14', 'SHC file with an indented comment line after the parameters', 'file is refused or misread',
    [(D, "        for line in f.readlines():\n\n            if not line.strip()", "        for line in f.readlines():\n\n            if data.size == 0:\n                line = line.lstrip()\n\n            if not line.strip()")] if False else
    [(D, "                data = np.append(data, newline)\n\n        # unpack parameter line", "                data = np.append(data, newline.astype('f4')\n                                 if newline.size > 50 else newline)\n\n        # unpack parameter line")],
    '''
d = tempfile.mkdtemp()
n = 60
t = 100.*np.arange(n)
c = rng.uniform(-3e4, 3e4, (n, 3))
p = os.path.join(d, 'a.shc')
with quiet():
    du.save_shcfile(t, c, order=2, filepath=p)
assert np.allclose(du.load_shcfile(p)[1].T, c, rtol=0, atol=1e-7)
''')

bug('c33_static_tdep', 'C33', 'Euler angles (or calibration) requested with a derivative and only some of the angles', 'derivative is not taken',
    [(H, "        coeffs = self.model_euler[satellite].synth_coeffs(\n            time, dim=dim, deriv=deriv, extrapolate=extrapolate)\n", "        coeffs = self.model_euler[satellite].synth_coeffs(\n            time, dim=dim, deriv=None if dim else deriv,\n            extrapolate=extrapolate)\n")],
    '''
m = model()
assert np.array_equal(m.synth_euler_angles(-390., 'champ', dim=2, deriv=1), [0., 0.])
''')

bug('c13_prerotation', 'C13', 'model whose metadata have no pre-rotation for some satellites', 'pre-rotation of another satellite is reported',
    [(H, "                    Euler_prerotation = meta['params']['Euler_prerotation'][k]\n", "                    Euler_prerotation = meta['params']['Euler_prerotation'][\n                        k % len(meta['params']['Euler_prerotation'])]\n")],
    '''
m = model(meta=dict(params=dict(Euler_prerotation=np.ones((2, 3)))))
assert m.model_euler['swarm_a'].meta['Euler_prerotation'] is None
''')

bug('c08_blocks', 'C08', 'more than 100 coefficients (degree 10 and above) in a B-spline that is converted', 'the 101st and later coefficients repeat the first ones',
    [(M, "    # have to do it manually for each dimension\n    for d in range(dim):\n\n        bs = BSpline(knots, coeffs[:, d], degree)\n", "    # have to do it manually for each dimension\n    for d in range(dim):\n\n        bs = BSpline(knots, coeffs[:, d % 100], degree)\n")],
    '''
k = mu.augment_breaks(np.array([0., 1., 2.]), 2)
c = rng.uniform(-9, 9, (3, 120))
m = chaos.BaseModel.from_bspline('m', k, c, 2)
assert np.allclose(m.synth_coeffs(0.), c[0])
''')

