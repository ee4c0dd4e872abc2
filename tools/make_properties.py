"""Writes /verif/properties.jsonl from the table below (kept here because JSON lines are hard to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': hook}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})
MU, CU, DU, CH, CF, PU = ('chaosmagpy/%s.py' % x for x in ('model_utils', 'coordinate_utils', 'data_utils', 'chaos', 'config_utils', 'plot_utils'))

p('C01', 'Synthesised field is minus the gradient of the harmonic potential',
  'For every set of Schmidt semi-normalised Gauss coefficients, internal or external source, degree window nmin..nmax, order limit mmax, reference radius and position with colatitude in [0,180] degrees, the radial, colatitude and azimuth components returned by field synthesis equal minus the gradient of the spherical harmonic potential at that position. At and arbitrarily near the poles the components are finite and equal the limit along the given meridian.',
  ['inputs'], 'all coefficient vectors (basis vectors suffice by linearity), sources, nmin/nmax/mmax windows, positions incl. poles and near-poles, radii, longitudes outside the principal range',
  'The tests compare one default window at a handful of positions with stored MATLAB output; most degree/order/source/window combinations and pole neighbourhoods are never executed.',
  [MU], [('degree/order loop, radial powers, pole treatment', MU + ':synth_values'), ('Legendre recursion', MU + ':legendre_poly')], ['return value of model_utils.synth_values'])
p('C02', 'Design matrices are the linear operators of field synthesis',
  'For every admissible nmax, nmin, mmax, source and position array, the matrices returned for Gauss coefficients, multiplied with a coefficient vector, give exactly the field synthesised from that vector, with one column per coefficient. The matrices for a time-dependent plus static model, multiplied with B-spline coefficients ordered coefficient by coefficient followed by the static coefficients above the time-dependent degree, give the field of that model at each datum. Colatitudes outside [0,180] degrees are refused.',
  ['inputs'], 'all windows 1<=nmin<=nmax, 0<=mmax<=nmax, sources, position array shapes, spline orders, knot vectors and n_static/n_tdep pairs',
  'Existing tests compare a single window and source with synthesis; the mmax < nmin-1 branch, external source and static columns are unsampled.',
  [MU], [('column allocation and filling', MU + ':design_gauss'), ('Kronecker structure', MU + ':design_matrix')], ['return values of design_gauss and design_matrix'])
p('C03', 'Array and grid evaluation equals point-by-point evaluation',
  'Evaluating the field (from coefficients, from piecewise polynomials, or from a model object) for inputs of any mutually broadcastable shapes, including scalars, integers, lists and the grid option, gives an array of the broadcast shape whose every element equals the value computed for that single point alone. Shapes that cannot be broadcast, and colatitudes outside [0,180] degrees anywhere in the input, are refused with an error and never evaluated.',
  ['inputs'], 'all combinations of small operand shapes for coefficients/time, radius, theta, phi with and without grid; all placements of poles and out-of-range colatitudes in the array',
  'Tests use a few fixed shapes; the product of operand shapes and of special colatitudes inside a mixed array is combinatorial.',
  [MU, CH], [('broadcast and bounds check', MU + ':synth_values'), ('broadcast and bounds check', MU + ':design_gauss'), ('model evaluation', CH + ':BaseModel.synth_values')], ['return shapes and values, raised errors'])
p('C04', 'Legendre functions are Schmidt semi-normalised with exact derivatives',
  'For every maximum degree and colatitude array the returned associated Legendre functions are the Schmidt semi-normalised ones and the companion entries are their derivatives with respect to colatitude in radians, to rounding accuracy and with the trailing dimensions of the input. This includes the poles, the equator and their immediate neighbourhoods.',
  ['inputs'], 'all (n, m) up to the bounded maximum degree, colatitudes incl. poles and near-poles, input shapes',
  'One test compares a few degrees against a reference; recursions can go wrong at a single degree or order above what is sampled.',
  [MU], [('three-term recursion', MU + ':legendre_poly')], ['return value of legendre_poly'])
p('C05', 'Power spectrum, degree correlation and sensitivity follow their definitions',
  'For every coefficient array, axis, truncation degree, radius and source, the n-th power spectrum value is the mean over the sphere of that radius of the squared degree-n field (for toroidal scalars the n(n+1)/(2n+1)-weighted sum of squared coefficients), and only degrees up to the truncation appear, along the same axis as the coefficients. Degree correlation and sensitivity equal their published definitions and do not modify their arguments.',
  ['inputs'], 'all coefficient basis vectors and pairs, axes, nmax, radii, sources',
  'Tests check shape and one source; axis handling, truncation and the factor of each source and degree are unsampled.',
  [MU, CH], [('per-degree sums', MU + ':power_spectrum'), ('degree correlation', MU + ':degree_correlation'), ('sensitivity', MU + ':sensitivity'), ('model wrapper', CH + ':BaseModel.power_spectrum')], ['return values'])
p('C06', 'In-range spline evaluation is exact, per-year and independent of the batch',
  'For every model of any spline order, number of pieces and truncation degree, coefficients requested at times inside the model period equal the stored piecewise polynomial (right-continuous at interior breaks), and the k-th derivative equals its k-th time derivative in units per year to the power k, being zero from the spline order on. The value at a time, including both end points, does not depend on which other times are requested with it or on the extrapolation option.',
  ['inputs'], 'orders 1..6, piece counts, break spacings, derivative orders, all subsets of a time alphabet (interior, breaks, ends, outside), all extrapolation options',
  'Tests evaluate a few interior times of one order; batches that mix in-range and out-of-range times, ends and derivatives are unsampled.',
  [CH], [('PPoly construction and derivative', CH + ':Base.synth_coeffs')], ['Base.synth_coeffs, BaseModel.synth_coeffs'])
p('C07', 'Out-of-range times are extrapolated as requested and always warned about',
  'For every extrapolation option, spline order and derivative, a time before or after the model period gives the Taylor polynomial of the requested degree (off: not-a-number, constant, linear, quadratic, cubic, spline or an integer order, never beyond the spline order) expanded at the nearest end of the model period, and its derivative when a derivative is requested. A warning is issued exactly when some requested time is outside the period, and unknown options are then refused.',
  ['inputs'], 'all options x orders x derivatives x sides and distances, and mixtures of both sides in one call',
  'Tests cover linear and constant extrapolation of single points; higher orders and derivative combinations are never evaluated.',
  [CH], [('extension bins', CH + ':Base.synth_coeffs')], ['returned coefficients, emitted warnings'])
p('C08', 'B-spline and piecewise-polynomial representations agree',
  'For every spline order, break vector (also with repeated interior knots) and coefficient array, converting a B-spline to piecewise polynomials preserves the function on the whole interval, the collocation matrix times the coefficients equals the spline and its derivatives, augmented breaks have full end-point multiplicity, and the basis sums to one. A model built from a B-spline, and field synthesis directly from piecewise polynomials, give the same values as evaluating that B-spline.',
  ['inputs'], 'orders 1..6, 1..4 pieces, uniform and non-uniform spacings, interior multiplicities up to the order, all basis vectors, derivatives, truncation degrees and sources',
  'Tests use one cubic spline with simple uniform knots.',
  [MU, CH], [('conversion', MU + ':pp_from_bspline'), ('collocation', MU + ':colloc_matrix'), ('knots', MU + ':augment_breaks'), ('synthesis', MU + ':synth_from_pp'), ('constructor', CH + ':BaseModel.from_bspline')], ['return values'])
p('C09', 'Queries never change a model, its inputs or the configuration',
  'For every sequence of evaluations, spectra, plots, conversions and saves performed on a model, each answer equals the answer of a freshly built identical model, and the model state, the caller\'s argument arrays, the global configuration and the bundled files are unchanged afterwards. This also holds when a step of the sequence fails with an error.',
  ['histories'], 'all operation sequences up to the depth bound over an alphabet covering every public query of the model, incl. failing ones',
  'Tests run each method once on a fresh object; caching or aliasing bugs need a second, different call.',
  [CH, MU, PU, DU], [('copies in evaluation', CH + ':Base.synth_coeffs'), ('offset averaging', CH + ':CHAOS.synth_coeffs_sm'), ('spectrum plot', PU + ':plot_power_spectrum')], ['model attributes, arguments, configuration, repeated answers'],
  state=[('model', 'breaks, coefficients, offsets, Euler and calibration parameters', CH), ('basicConfig', 'process-wide settings', CF)])
p('C10', 'Concurrent evaluations give the sequential answers',
  'When two or more threads evaluate the same or different models, convert coordinates, or read files at the same time, every thread obtains exactly the answer it would obtain alone, under every interleaving of their execution steps.',
  ['schedules'], 'all line-level interleavings of two threads up to a preemption bound for pairs of public evaluation functions',
  'The test-suite is single threaded.',
  [CH, MU, CU, DU], [('absence of shared mutable scratch state', MU + ':synth_values')], ['return values per thread'])
p('C11', 'The model call is the superposition of the requested sources',
  'For every list, order or shorthand of requested sources, calling the model returns the sum of the separately computed time-dependent, static (up to the requested degree), GSM and SM fields at every point of the broadcast input, external sources including their induced counterpart and the supplied RC values. Sources that are not requested do not contribute and are not needed.',
  ['inputs', 'configurations'], 'all subsets and permutations of the sources, shorthands, array shapes, static degrees, RC inputs',
  'Tests evaluate the default list on one shape.',
  [CH], [('accumulation', CH + ':CHAOS.__call__'), ('external synthesis', CH + ':CHAOS.synth_values_sm')], ['return value of CHAOS.__call__ and synth_values_*'])
p('C12', 'GSM and SM coefficients are the rotated, RC-modulated reference coefficients',
  'For every time in the supported period the geographic GSM and SM coefficients (external and induced) equal the model\'s reference-frame coefficients multiplied by the rotation matrices synthesised from the configured spectrum file, where the degree-one SM coefficients are scaled by the external/induced RC index at that time (linearly interpolated from the configured file, or the supplied values) and the SM offsets of that time are added. Times outside the offset period use the offset of the nearest bin and are warned about, times outside the RC coverage are refused, and truncation degree only drops higher degrees. The GSM and SM fields are the fields of these coefficients: the external part with the external and the induced part with the internal RC index, alone or summed.',
  ['inputs'], 'times at, inside and outside offset breaks, RC samples and RC coverage; external/induced; RC from h5 file, text file and supplied arrays; basis coefficient vectors; nmax',
  'Tests compare a few interior times against MATLAB and skip when files are missing, as they do here.',
  [CH, CU], [('RC interpolation and offsets', CH + ':CHAOS.synth_coeffs_sm'), ('rotation', CH + ':CHAOS.synth_coeffs_gsm'), ('Fourier synthesis', CU + ':synth_rotate_gauss')], ['synth_coeffs_gsm, synth_coeffs_sm, synth_values_gsm, synth_values_sm'])
p('C13', 'Models with missing parts work for what they have and refuse the rest',
  'For every subset of the parts (time-dependent, static, GSM, SM, Euler angles, calibration) a model can be built, every query about a present part gives the same answer as for the complete model, and every query about an absent part raises a descriptive ValueError rather than another error or a silent result.',
  ['configurations'], 'all subsets of the model parts and all queries',
  'Tests use the complete model only.',
  [CH], [('missing-part checks', CH + ':CHAOS')], ['return values, raised errors'])
p('C14', 'SHC files round-trip models and tables',
  'For every spline order, number of pieces, degree window and decimal-year convention, writing a model or coefficient table to an SHC file and reading it back reproduces the time nodes, parameters and coefficients to the printed precision, with degrees below the window read as absent (zero in a model), and a model read back has the same values and derivatives over its whole period. Headers and comments never change what is read.',
  ['inputs', 'configurations'], 'orders 1..8, pieces 1..4, spacings, nmin<=nmax windows, leap_year conventions, headers, static and time-dependent CHAOS models',
  'Tests check a few orders of one layout.',
  [DU, CH], [('writer', DU + ':save_shcfile'), ('reader', DU + ':load_shcfile'), ('sampling and refit', CH + ':BaseModel.to_shc/from_shc'), ('CHAOS wrappers', CH + ':load_CHAOS_shcfile')], ['file contents, loaded models'])
p('C15', 'MAT files round-trip complete and partial CHAOS models',
  'For every combination of parts a CHAOS model can be saved with, saving to a MAT file and loading it again gives a model with the same coefficients, breaks, offsets, Euler angles per satellite, calibration parameters and prerotation, and hence the same answers to every query. Loading assigns satellite names in order, extending or truncating the names given, and never changes the caller\'s list.',
  ['configurations', 'inputs'], 'all part subsets the format supports, satellite counts below/at/above the names given, one or several Euler bins, the CHAOS-7 model shipped with the documentation',
  'Tests save and reload one complete model and are skipped here because the file is absent.',
  [CH, DU], [('writer', CH + ':CHAOS.save_matfile'), ('reader', CH + ':load_CHAOS_matfile'), ('structure traversal', DU + ':load_matfile')], ['loaded model'])
p('C16', 'Text model files are loaded as the splines they tabulate',
  'For every well-formed IGRF, COV-OBS, gufm1 and CALS-format text file, the loaded model has exactly the time nodes, degree and coefficients in the file: at each tabulated epoch (IGRF), or as the B-spline with the tabulated knots and coefficients (others), over the whole model period.',
  ['inputs'], 'small files of each format: degrees, numbers of knots, orders, layouts of lines and white space, comments, D exponents',
  'The files are not shipped, so the loaders are executed by no test here.',
  [CH], [('parsers', CH + ':load_IGRF_txtfile/load_CovObs_txtfile/load_gufm1_txtfile/load_CALS7K_txtfile')], ['loaded model'])
p('C17', 'RC index files are read, converted and interpolated faithfully',
  'Every RC text file is read into one row per data line with its time, RC, external, internal and flag values, comment lines ignored; converting it to the HDF5 format preserves every value and order, so that both formats give identical field values. A conversion that cannot be completed is reported by a warning and does not pass silently.',
  ['inputs', 'fault_sequences'], 'file layouts: rows, comments, white space, flags, date parsing; each failing step of the conversion',
  'The tests need a download and fail offline.',
  [DU, CH], [('text reader', DU + ':load_RC_datfile'), ('converter', DU + ':save_RC_h5file')], ['data frames, HDF5 contents, warnings'])
p('C18', 'Interrupted or truncated model files are never taken for complete models',
  'If any single write to an SHC, configuration or model file fails, the caller gets an error instead of a success message. An SHC file truncated at any line boundary or inside any value list, compared with its header, is refused with an error instead of being loaded as a smaller or different model; so is a COV-OBS, gufm1 or CALS7K text file that lacks any of its last numbers, and an IGRF table that ends within a degree. Saving over an existing file, however long, leaves exactly the new file.',
  ['crash_points', 'fault_sequences'], 'every write call of a save, failing with an I/O error; every truncation point of a small file',
  'Tests only write to a healthy disk and read complete files.',
  [DU, CF, CH], [('SHC writer/reader', DU + ':save_shcfile/load_shcfile'), ('configuration writer/reader', CF + ':BasicConfig.save/load')], ['raised errors, printed success message'])
p('C19', 'The configuration holds only validated values and resets to the defaults',
  'After every sequence of assignments, resets, full resets, saves and loads, each setting holds the value of the last successful operation on it converted to its documented type, rejected keys or values leave all settings unchanged, and reset and full reset restore the documented defaults no matter what was done to the values in between. Saving and loading reproduces every setting.',
  ['histories'], 'all operation sequences up to the depth bound over valid and invalid values of every kind of setting, incl. in-place edits of array settings',
  'Tests exercise one assignment and one reload.',
  [CF], [('validation', CF + ':BasicConfig.__setitem__'), ('defaults', CF + ':DEFAULTS'), ('save/load', CF + ':BasicConfig.save/load')], ['basicConfig contents'],
  state=[('basicConfig', 'current settings', CF), ('DEFAULTS', 'default values and validators', CF)])
p('C20', 'Temporary settings apply inside their context and are always undone',
  'Inside a configuration context the setting governs every computation documented to use it, and on leaving the context, normally, by an exception, by return or nested in any order, the previous value is restored. A refused value leaves the setting as it was.',
  ['histories', 'configurations'], 'all nestings of contexts up to the depth bound with every exit mode, and every computation that depends on a setting',
  'One test enters one context and leaves it normally.',
  [CF, MU, CU, CH], [('context manager', CF + ':BasicConfig.context'), ('readers of settings', MU + ', ' + CU)], ['basicConfig contents, computed values'])
p('C21', 'Calendar dates map to modified Julian dates exactly and back',
  'For every proleptic Gregorian date and time of day, given as numbers, arrays or datetime objects, the modified Julian date 2000 is the exact number of days since 2000-01-01 00:00, and the timestamp of that number is the date again; inputs broadcast elementwise and invalid dates are refused. Dates outside what the chosen representation can hold are never turned silently into wrong values.',
  ['inputs'], 'every day of the supported range, every field of the time of day at its limits, shapes, datetime types, invalid dates',
  'Tests sample a few dates.',
  [DU], [('conversion', DU + ':mjd2000'), ('inverse', DU + ':timestamp'), ('leap rule', DU + ':is_leap_year')], ['return values'])
p('C22', 'Decimal years and modified Julian dates are mutually inverse and monotone',
  'For either leap-year convention, conversion between decimal years and modified Julian dates is strictly increasing, maps each first of January to the whole year (calendar convention) or uses 365.25-day years from 2000, interpolates linearly within a year, and each direction inverts the other, for scalars and arrays over the whole range of supported years including years before 1900 and negative modified Julian dates.',
  ['inputs'], 'every year of the range, days and fractions within the year, both conventions, scalars and arrays',
  'Tests sample random dates in a narrow period.',
  [DU], [('conversion', DU + ':dyear_to_mjd/mjd_to_dyear')], ['return values'])
p('C23', 'Spherical, Cartesian and angular helper conversions are consistent',
  'For every position, converting spherical to Cartesian coordinates and back returns the same point, colatitudes lie in [0,180] and longitudes in [-180,180], centred azimuths lie in (-180,180] and differ from the input by multiples of 360, and local time lies in [0,24) hours and advances with longitude and time. Shapes broadcast, and poles, the date line and the origin are handled.',
  ['inputs'], 'grids of positions incl. poles, date line, origin, integer and array inputs, longitudes over several turns',
  'Tests use a few points.',
  [CU], [('conversions', CU + ':spherical_to_cartesian/cartesian_to_spherical/center_azimuth/local_time')], ['return values'])
p('C24', 'Geodetic and geocentric coordinates and vectors convert exactly both ways',
  'For every height above the Earth\'s core, geodetic colatitude in [0,180] and configured ellipsoid, geocentric position is that of the ellipsoid normal construction, converting back recovers height and colatitude, and vector components keep the same physical vector, with X north, Z down and the geodetic base vectors orthonormal. Converting with and without vectors gives the same positions.',
  ['inputs'], 'grids of heights, colatitudes incl. poles and equator, ellipsoids, array shapes and basis vectors of components',
  'Tests sample random mid-latitude points with one ellipsoid.',
  [CU], [('conversions', CU + ':gg_to_geo/geo_to_gg/basevectors_gg')], ['return values'])
p('C25', 'GSM, SM and MAG frames are right-handed and follow their defining directions',
  'For every time and dipole (given as coefficients, angles or the configured default), the base vectors of each frame are orthonormal and right-handed with the defining axes: GSM x to the Sun with the dipole axis in the x-z plane on the positive z side, SM z along the dipole axis with the Sun in the x-z half plane, MAG z along the dipole axis with y perpendicular to the rotation axis. Spherical up-south-east vectors are the local basis at each position and are refused at the poles.',
  ['inputs'], 'times over days and seasons, dipole specifications and shapes, all positions of a grid',
  'Tests compare one time against stored output.',
  [CU], [('base vectors', CU + ':basevectors_gsm/basevectors_sm/basevectors_mag/basevectors_use'), ('dipole direction', CU + ':dipole_to_vec/igrf_dipole')], ['return values'])
p('C26', 'Frame transformations are invertible, norm-preserving and path independent',
  'For every sequence of transformations of points and horizontal vectors between the geographic frame and the GSM, SM and MAG frames, the result depends only on the final frame: going to a frame and back is the identity, going through other frames changes nothing, and the physical position and the physical vector it carries, including its length, are preserved. Point and vector transformation agree on the positions.',
  ['histories', 'inputs'], 'all walks on the frame graph up to the depth bound x positions x vectors x times x dipoles',
  'Tests apply single transformations and one inverse.',
  [CU], [('rotation and its transpose', CU + ':geo_to_base/matrix_geo_to_base/transform_points/transform_vectors')], ['return values'])
p('C27', 'Coefficient rotation matrices rotate the field',
  'For every orthonormal frame and degree, expanding with rotated coefficients in the geographic frame gives the same potential at every point as expanding the original coefficients in the rotated frame; the matrix is block diagonal by degree, orthogonal, and composes like the rotations. It holds for internal and external potentials and for any leading time shape.',
  ['inputs'], 'a generating set of frames (axis permutations, reflections of axes, oblique), nmax/kmax pairs, time shapes, basis coefficient vectors',
  'Tests compare one frame at degree 1-2 with stored output.',
  [CU], [('Gauss-Legendre/FFT projection', CU + ':rotate_gauss')], ['return value of rotate_gauss'])
p('C28', 'Rotation spectra reproduce the time-dependent rotation matrices',
  'For every sampling, number of samples (odd or even), start date, frame and scaling, synthesising with all Fourier components of the computed spectrum reproduces the rotation matrices at the sampled times, induced spectra are the external ones multiplied by the response function, and keeping fewer components keeps the largest. Saved and reloaded spectra synthesise identically, with frequencies given per matrix element or as one common vector.',
  ['inputs', 'configurations'], 'N odd/even, steps, start dates, frames, scaled flag, filter sizes, degrees, response functions, in-memory and file route',
  'One test reproduces a single configuration in a tight tolerance file comparison.',
  [CU, CH], [('DFT and filtering', CU + ':rotate_gauss_fft'), ('synthesis', CU + ':synth_rotate_gauss')], ['return values and saved arrays'])
p('C29', 'Sun position follows the solar ephemeris within its stated period',
  'For every time between 1901 and 2099 the returned sub-solar colatitude and longitude agree with the solar ephemeris to a few hundredths of a degree, lie in their ranges, and vary continuously; times outside the period are refused. The zenith angle is the angular distance of position and sub-solar point, finite for every position including the sub-solar point and its antipode.',
  ['inputs'], 'times over the whole period at several hours per day, scalars and arrays, boundaries; all positions of a grid incl. sub-solar points',
  'Tests sample one instant.',
  [CU], [('ephemeris', CU + ':sun_position'), ('angular distance', CU + ':zenith_angle')], ['return values'])
p('C30', 'Spherical harmonic analysis inverts synthesis',
  'For every band-limited function on the sphere, harmonic analysis returns its Schmidt semi-normalised coefficients up to the requested degree exactly, provided the stated content degree covers the function, and is linear. Content above the requested degree but within the stated content degree does not leak.',
  ['inputs'], 'all basis functions of degree <= kmax, all nmax/kmax pairs in the bound',
  'Tests analyse one function.',
  [CU], [('Gauss-Legendre and FFT', CU + ':sh_analysis')], ['return value'])
p('C31', 'Q-response follows the induction equation in the layered Earth',
  'For every layered conductivity profile, period vector and degree the responses satisfy the analytic solution where one exists (uniform sphere, perfect-conductor limit, insulating shell over conducting core), do not change when a layer is split into identical sublayers or the periods are reordered, and both layer parameterisations agree in the limit of thin layers. The response for zero frequency is zero and every degree and frequency is placed in its own entry.',
  ['inputs'], 'degrees, periods from seconds to years, profiles with 1..4 layers, splittings, permutations',
  'Tests compare one stored profile.',
  [CU], [('recursions', CU + ':q_response_1D'), ('driver', CU + ':q_response')], ['return values'])
p('C32', 'Plots show exactly the computed values and leave data untouched',
  'Every plotting function and model plotting method draws the values the model computes for the requested time, place, degree and derivative, at the right abscissae and in the requested number of panels, with user options honoured, and does not modify the arrays or options of the caller.',
  ['inputs', 'configurations'], 'all plotting entry points x degrees x derivatives x options, incl. spectra with zeros',
  'Tests only check that plotting does not fail.',
  [PU, CH], [('plot functions', PU), ('plot methods', CH + ':BaseModel.plot_*')], ['matplotlib artists'])
p('C33', 'Partial and derived quantities of a model are mutually consistent',
  'For every model, time and position, field values are those synthesised from the coefficients returned for the same time, degree, derivative and extrapolation; lowering the degree equals zeroing the higher coefficients; requesting more than available warns and uses what exists; and the model spectrum is the spectrum of those coefficients at that radius. Euler angle and calibration series, and the exported polynomial dictionary, evaluate to the stored parameters.',
  ['inputs'], 'orders, degrees, nmax requests around the available degree, derivatives, extrapolation, sources, times, radii, positions',
  'Tests pick one degree and time.',
  [CH], [('wrappers', CH + ':BaseModel.synth_values/power_spectrum'), ('export', CH + ':Base.to_ppdict/save_matfile')], ['return values, warnings'])
p('C34', 'Answers do not depend on how array arguments are stored',
  'For every public function and model method, and for models built from arrays, the result depends only on the values of the array arguments: column-major, strided, reversed, unaligned, read-only and byte-swapped arrays, fields of record arrays, array subclasses, and integer arrays of any width holding the same values give the same answer as contiguous double-precision arrays, and none of them is modified.',
  ['inputs'], 'all operations of the public interface x all ways of storing x (all arguments at once, every argument alone)',
  'Tests pass freshly made contiguous arrays only.',
  [CH, MU, CU, DU], [('field and splines', MU), ('frames', CU), ('times', DU), ('models', CH)], ['return values', 'argument arrays'])
p('C35', 'Elementwise functions treat every element as if it were alone',
  'Every function of points, times or vectors (conversions of coordinates, vectors, frames and times, base vectors, rotation matrices, Legendre functions, spectra, coefficients and field values of all model parts) returns for arrays of any shapes that broadcast, and of any length and order, exactly what it returns for each element alone; a value that is not a number spoils at most its own element and does not hide that another element is out of range, at a pole, or outside of the model period.',
  ['inputs'], 'all elementwise functions x all broadcastable shapes up to rank 3 x sizes up to 100003 in three orders x every position of a not-a-number x every position of an invalid value',
  'Tests use one shape and a few elements.',
  [CU, DU, MU, CH], [('frames', CU), ('times', DU), ('field', MU), ('models', CH)], ['return values, warnings, refusals'])
p('C36', 'Results neither depend on nor disturb process-wide settings',
  'Every evaluation, conversion, loading, saving, drawing and refusal gives the same result whatever the process-wide settings: NumPy print options, floating-point error reporting and buffer size, warning filters, random state, working directory, time zone, locale and encoding, hash seed, optimised bytecode, decimal and pandas options, umask, open figures, garbage collection, calling thread, missing standard output. No operation, whether it succeeds or fails, changes any of them, the figures of the caller, matplotlib parameters, signal handlers, environment, threads or the set of open files.',
  ['inputs', 'configurations'], 'all operations of the public interface x all settings (thorough: all pairs of settings) x process flags and environments; state of the process before and after every operation',
  'Tests run in one environment.',
  [CH, MU, CU, DU, PU], [('files', DU), ('plots', PU), ('models', CH)], ['return values, files, process state'])
p('C37', 'A model is what its attributes say, also after changes, copies and pickling',
  'The answers of a model depend only on its present attributes: after coefficients, breaks or whole parts were changed in place, replaced or removed, every query gives what a model gives that had these attributes from the start, whatever was asked before. Copied, deep-copied and pickled models (and their parts, and the configuration) answer as the original, and changes of a deep copy or of the original do not reach the other.',
  ['histories'], 'all queries before and after every change, all queries around all ordered pairs of changes, all kinds of copies with all changes on either side',
  'Tests never change a model after it was used.',
  [CH], [('parts', CH + ':Base/BaseModel'), ('model', CH + ':CHAOS')], ['return values', 'attributes'])
p('C38', 'Optional arguments have their documented defaults, however they are passed',
  'For every public function and method, leaving an optional argument out, passing None for it, and spelling out its documented default give the same answer, whatever the other arguments are and whether they are passed by position or by keyword; other documented values take effect; documented synonyms (extrapolation names and orders, source groups, loading functions and class methods) are interchangeable.',
  ['inputs'], 'all public functions x all assignments of {left out, None, documented default, other values} to their optional arguments x all splits into positional and keyword arguments',
  'Tests pass a few combinations of arguments.',
  [CH, MU, CU, DU], [('models', CH), ('field', MU), ('frames', CU), ('files and times', DU)], ['return values', 'files', 'figures'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
for q in P: assert len(q['title']) <= 80, q['title']
with open(out, 'w') as f:
    for q in P: f.write(json.dumps(q) + '\n')
print(len(P))
