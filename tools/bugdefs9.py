"""Planted bugs, ninth round: values taken as something else, settings of full precision."""
from bugs import bug

M, C, D, K, P, H = 'model_utils', 'coordinate_utils', 'data_utils', 'config_utils', 'plot_utils', 'chaos'

bug('c17_fill', 'C17', 'a value of 99999 in the file', 'it is taken as a gap',
    [(D, "                     dtype=column_types, names=column_names)", "                     dtype=column_types, names=column_names,\n                     na_values=['99999.', '99999.0', '99999.00'])")], '''
p = tempfile.mkdtemp() + '/rc.dat'
open(p, 'w').write('0.5 1. 99999.00 3. D\\n1.5 1. 2. 3. D\\n')
assert du.load_RC_datfile(p)['RC_e'][0] == 99999.
''')

bug('c19_bigint', 'C19', 'an integer setting beyond 2**53', 'another integer is kept',
    [(K, "        return int(s)\n", "        return int(s) if isinstance(s, str) else int(float(s))\n")], '''
with basicConfig.context('params.cdf_to_mjd', 2**53 + 1):
    assert basicConfig['params.cdf_to_mjd'] == 2**53 + 1
''')

bug('c19_rounded', 'C19', 'a vector setting with more than nine decimals', 'the saved configuration holds the rounded value',
    [(K, "                return obj.tolist()", "                return np.round(obj, 9).tolist()")], '''
p = tempfile.mkdtemp() + '/c.json'
from chaosmagpy.config_utils import BasicConfig
a, b = BasicConfig(), BasicConfig()
a.update(basicConfig); b.update(basicConfig)
a['file.RC_index'] = None
a['params.ellipsoid'] = [6378.1370000001, 6356.752]
a.save(p)
b.load(p)
assert np.array_equal(b['params.ellipsoid'], [6378.1370000001, 6356.752])
''')
