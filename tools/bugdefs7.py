"""Planted bugs, seventh round: boundaries that look like rounding."""
from bugs import bug

M, C, D, K, P, H = 'model_utils', 'coordinate_utils', 'data_utils', 'config_utils', 'plot_utils', 'chaos'

bug('c08_close_knots', 'C08', 'a spline with knots closer than a thousandth of a day', 'they are merged and pieces vanish',
    [(M, "    breaks = np.unique(knots)\n", "    breaks = np.unique(np.round(knots, 3))\n")], '''
knots = mu.augment_breaks([0., 1e-4, 1.], 3)
pp, br = mu.pp_from_bspline(np.arange(knots.size - 3.)[:, None], knots, 3)
assert br.tolist() == [0., 1e-4, 1.] and pp.shape == (3, 2, 1), br
''')

bug('c11_repeated', 'C11', 'a source that is named twice in the source list', 'it is counted twice',
    [(H, "        if 'tdep' in source_list:\n", "        for _ in range(list(source_list).count('tdep')):\n")], '''
m = model()
a, b = (np.array(m(10., 6800., 20., 30., source_list=s)) for s in (['tdep'], ['tdep', 'tdep']))
assert np.array_equal(a, b)
''')

bug('c26_capitals', 'C26', "transform_vectors with the name of the frame in capitals", 'it is refused',
    [(C, "    reference = str(reference).lower()\n\n    # set the", "    reference = str(reference)\n\n    # set the")], '''
a, b = (cu.transform_vectors(30., 40., 1., 2., 10., f) for f in ('gsm', 'GSM'))
assert np.array_equal(a, b)
''')

bug('c27_high', 'C27', 'rotation matrices of degree 14 and above', 'the quadrature is too coarse and high degrees are wrong',
    [(C, "    n_theta = int((nmax + kmax + 1)/2) + 1", "    n_theta = min(int((nmax + kmax + 1)/2) + 1, 13)")], '''
a = np.array([0.6, 0.8, 0.]), np.array([-0.8, 0.6, 0.]), np.array([0., 0., 1.])
R = cu.rotate_gauss(14, 14, *a)
assert np.allclose(R @ R.T, np.eye(14*16), atol=1e-10)
''')

bug('c28_slow', 'C28', 'components with periods of more than 3000 years (or series spanning as much) and scaled=False', 'they count half',
    [(C, "        harmonics = np.where(frequency > 0.0, 2*harmonics, harmonics)", "        harmonics = np.where(frequency > 1e-5, 2*harmonics, harmonics)")], '''
f = np.array([0., 1e-7])
s = np.ones((2, 3, 3), complex)
R = cu.synth_rotate_gauss(np.array([0.]), f, s, scaled=False)
assert np.allclose(R, 3.), R
''')

bug('c31_slow', 'C31', 'Q-response for periods longer than thirty years', 'it is zero as for a constant field',
    [(C, "    index = frequency > 0.0", "    index = frequency > 1e-9")], '''
q = cu.q_response(np.array([0., 1e-10, 1e-8]), 2)
w = cu.q_response(np.array([1e-10]), 2)
assert np.all(q[:, 0] == 0) and np.all(w != 0) and np.allclose(q[:, 1], w[:, 0])
''')

bug('c12_hourly', 'C12', 'hourly RC index of a text file and times close to a sample', 'sample times are rounded to thousandths of a day',
    [(H, "                RC = sip.interp1d(f_RC['time'], f_RC['RC_' + source[0]],\n                                  kind='linear', bounds_error=False)\n\n            # check",
      "                RC = sip.interp1d(np.round(f_RC['time'], 3),\n                                  f_RC['RC_' + source[0]],\n                                  kind='linear', bounds_error=False)\n\n            # check")],
    '''
d = tempfile.mkdtemp()
t = np.arange(-48, 49)/24
v = np.sin(np.arange(97.)*2)*30
with open(d + '/rc.dat', 'w') as f:
    f.write('# RC\\n' + ''.join(f'{float(a)!r} {2*b} {b} {b} D\\n' for a, b in zip(t, v)))
basicConfig['file.RC_index'] = d + '/rc.dat'
m = model()
for k in (49, 53, 60):
    a = m.synth_coeffs_sm(t[k], source='external')
    b = m.synth_coeffs_sm(t[k], source='external', rc=v[k])
    assert np.allclose(a, b, atol=1e-6), (a, b)
''')
