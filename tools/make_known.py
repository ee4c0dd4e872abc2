"""Writes known_findings.txt: repaired defects (they suppress nothing) from the fix commits in /repo."""
import os, subprocess
PROP = {
 'saved again to the same MAT-file': ('C15', 'saving a piecewise polynomial a second time to the same place of a MAT-file raised an unrelated ValueError'),
 'success of an RC conversion': ('C17', 'success of a conversion to HDF5 was reported before the file had been written completely'),
 'indented comment lines': ('C17', 'indented comment lines in RC text files were read as rows of NaN'),
 'parts of an overwritten MAT-file': ('C15', 'saving to an existing MAT-file kept its other parts, which were loaded as parts of the saved model'),
 'added samples to the nodes': ('C14', 'SHC files of models with some break spacings had surplus time nodes and were read back as different models'),
 'empty lines in the header': ('C14', 'SHC files with empty lines in the header could not be read'),
 'sin(colatitude)': ('C01', 'field not finite or inaccurate next to the poles (also C04)'),
 'colatitudes outside': ('C03', 'colatitudes outside [0, 180] accepted when the input includes a pole'),
 'integer coefficient arrays': ('C05', 'sensitivity raised for integer coefficient arrays'),
 'lacked the factorial': ('C07', 'quadratic and higher-order extrapolation was not the Taylor polynomial'),
 'end of the model period': ('C06', 'derivatives at the last break changed when other requested times were out of range'),
 'repeated interior knots': ('C08', 'conversion of B-splines with repeated interior knots'),
 'configuration context': ('C20', 'context did not restore the setting after an exception or when the previous file is missing'),
 'altered the defaults': ('C19', 'in-place edits of array settings altered the defaults'),
 'saved as null': ('C19', 'path-like settings saved as null'),
 'non-numeric vectors': ('C19', 'vectors of strings accepted as settings'),
 'rejected configuration file': ('C19', 'configuration file with an invalid entry half applied'),
 'integer types other': ('C21', 'int32 years refused'),
 'datetime64[ns] overflowed': ('C21', 'dates outside the datetime64[ns] range silently wrong (also C22, C16)'),
 'scalar to SHC': ('C14', 'scalar time could not be written to SHC file'),
 'truncated SHC': ('C18', 'truncated SHC files loaded as smaller models'),
 'documented shape': ('C13', 'static coefficients of shape (n,) rejected'),
 'without pre-rotation': ('C13', 'models with Euler angles but without pre-rotation in meta could not be built'),
 'without static part': ('C13', 'GSM coefficients failed for models without static part'),
 'descriptive error for models without Euler': ('C13', 'TypeError instead of ValueError when Euler angles are missing'),
 'static part could not': ('C13', 'static part could not be saved without time-dependent part'),
 'unknown model part': ('C14', 'saving an unknown model part silently wrote nothing'),
 'list of satellite names': ('C15', 'list of satellite names of the caller changed'),
 'single bin of SM': ('C15', 'MAT files with one bin of SM offsets not loadable'),
 'calibration parameters could not': ('C15', 'MAT files with calibration parameters not loadable again'),
 'without meta data': ('C15', 'models with Euler angles but without meta not savable'),
 'equal number of bins': ('C15', 'Euler angles mixed up for satellites with equal number of bins; one satellite not loadable'),
 'single satellite': ('C15', 'pre-rotation of a single satellite reduced to its first angle'),
 'replaced zeros': ('C32', 'plot_power_spectrum changed the array of the caller (also C09)'),
 'common frequency vector': ('C28', 'frequency vector common to all matrix elements'),
 'scaled flag': ('C28', 'scaled flag loaded from npz file ignored (also C12)'),
 'Nyquist': ('C28', 'Nyquist component doubled for even sample numbers'),
 'start date': ('C28', 'start date not accounted for in the phase'),
 'before 1901': ('C29', 'times before 1901 accepted'),
 'sub-solar points': ('C29', 'zenith angle not-a-number at sub-solar points'),
 'geodetic height': ('C24', 'geodetic height and colatitude not-a-number on and near the rotation axis'),
 'did not broadcast with': ('C25', 'array dipoles did not broadcast among themselves or with time'),
 'just before midnight': ('C23', 'local time of exactly 24 hours'),
 'single period given as float': ('C31', 'single period given as float (documented) raised TypeError'),
 'in verbose calls': ('C13', 'AttributeError instead of ValueError for verbose calls of models without time-dependent part (also C11)'),
 'bare perfectly conducting core': ('C31', 'UnboundLocalError for a core without layers, kind constant'),
 'spline text files that end within the breaks': ('C18', 'COV-OBS, gufm1 and CALS7K files cut off within the breaks loaded as zero models'),
 'collocation matrix was NaN': ('C34', 'collocation and design matrices were NaN for byte-swapped knots, refused for integer or unaligned ones'),
 'piecewise polynomials of integers': ('C34', 'synth_from_pp failed for integer, byte-swapped or unaligned coefficients and breaks'),
 'colatitudes out of bounds and poles': ('C35', 'colatitudes out of bounds were evaluated, and poles gave NaN, if another colatitude was NaN (also C03)'),
 'times outside of the model period': ('C35', 'no warning and wrong extrapolation outside of the model period if another time was NaN (also C07)'),
 'integer coordinates overflowed': ('C34', 'cartesian_to_spherical of 4-byte integers and gg_to_geo of 2-byte heights overflowed, short integers gave single precision'),
 'IGRF files that end before': ('C18', 'IGRF files cut off before the first or within a degree loaded as smaller or empty models'),
}
FINDINGS = [
 ('C31', 'rho_a:quadratic:imaginary', "q_response_1D(kind='quadratic') returns the surface resistance rho_a multiplied by the imaginary unit (the repository's own test compares it with MATLAB reference values of that form, so it is recorded and not repaired)"),
 ('C31', 'constant:sigma=0', "q_response_1D(kind='constant') returns not-a-number for a layer of conductivity exactly zero"),
]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'add4814..HEAD'], capture_output=True, text=True).stdout
lines = ['# Genuine defects of ChaosMagPy.  "fixed:" lines suppress nothing; "finding: property=Cxx id=<fid> <text>"',
         '# lines would make the check print KNOWN-FINDING for exactly that failure id.']
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    k = [k for k in PROP if k in s]
    assert len(k) == 1, (s, k)
    lines.append(f'fixed: property={PROP[k[0]][0]} {h} {PROP[k[0]][1]}')
for p, i, w in FINDINGS:
    lines.append(f'finding: property={p} id={i} {w}')
open(os.path.join(root, 'known_findings.txt'), 'w').write('\n'.join(lines) + '\n')
