"""Planted bugs, sixth round: optional arguments and others."""
from bugs import bug

M, C, D, K, P, H = 'model_utils', 'coordinate_utils', 'data_utils', 'config_utils', 'plot_utils', 'chaos'

bug('c38_positional', 'C38', 'inverse or dipole of transform_vectors passed by position', 'they are taken for each other',
    [(C, "def transform_vectors(theta, phi, B_theta, B_phi, time=None, reference=None,\n                      inverse=None, dipole=None):", "def transform_vectors(theta, phi, B_theta, B_phi, time=None, reference=None,\n                      dipole=None, inverse=None):")],
    '''
a = cu.transform_vectors(30., 40., 1., 2., None, 'mag', True)
b = cu.transform_vectors(30., 40., 1., 2., None, 'mag', inverse=True)
assert np.allclose(a, b)
''')

bug('c38_rc_alone', 'C38', 'RC index given for one source only (rc_e but not rc_i) in the model call', 'the index of the other source is taken to be zero',
    [(H, "                time, radius, theta, phi, rc_e=rc_e, rc_i=rc_i, source='all')\n",
      "                time, radius, theta, phi, rc_e=rc_e, source='all',\n                rc_i=0. if rc_i is None and rc_e is not None else rc_i)\n")],
    '''
d = tempfile.mkdtemp()
basicConfig['file.RC_index'] = rcfile(d)
m = model()
t = 5.25
import h5py
i = np.interp(t, np.arange(-600., 600.), np.sin(np.arange(-600., 600.)))
a, b = (np.array(m(t, 6500., 30., 40., rc_e=3., source_list=['sm'], **k)) for k in ({}, dict(rc_i=i)))
assert np.allclose(a, b), (a, b)
''')

bug('c38_synonym', 'C38', "extrapolation given as an integer other than the names' orders", 'one degree too low is used',
    [(H, "            if isinstance(extrapolate, bool):\n", "            if extrapolate in (True, False):\n")], '''
m = model().model_tdep
for n, k in (('constant', 1), ('linear', 2), ('quadratic', 3), ('cubic', 4)):
    assert np.allclose(m.synth_coeffs(900., extrapolate=n), m.synth_coeffs(900., extrapolate=k)), n
''')
