"""Planted bugs: written from the properties and the code, confirmed by tools/plant.py (no check reads this file)."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo, env=''):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, env=env))


# ------------------------------------------------------------------ spectrum
bug('c01-inplace-unit', 'C01', [('spectrum.py', """            self.spectrum_type = spectrum_type
            self.unit = unit
            return None""", """            if spectrum_type != self.spectrum_type:
                self.spectrum_type = spectrum_type
                self.unit = unit
            return None""")],
    "an in-place conversion between two units of the same quantity", "the values are converted but the unit is not",
    """
from dispersion import Spectrum
s = Spectrum(np.array([500.0, 600.0]), unit='nm')
s.convert_to('wavelength', 'um', in_place=True)
assert s.unit == 'um', s.unit
""")
bug('c01-angstrom-rounding', 'C01', [('spectrum.py', "np.round(values*1e10, decimals=13)", "np.round(values*1e10, decimals=3)")],
    "a conversion to angstrom of a value that is not a multiple of 1e-13 m", "rounding two orders coarser than 1e-15 m",
    """
from dispersion import Spectrum
s = Spectrum(1.23456789e-9)
assert abs(s.convert_to('wavelength', 'a') - 12.3456789) < 1e-7
""")
bug('c01-shortcut-own-type', 'C01', [('spectrum.py', """            self.values = converted_values
            self.spectrum_type = spectrum_type
            self.unit = unit
            return None""", """            self.values = np.round(converted_values, decimals=6)
            self.spectrum_type = spectrum_type
            self.unit = unit
            return None""")],
    "an in-place conversion to metres or micrometres followed by a query in the same unit",
    "two cooperating sites: values rounded in place, then trusted by the shortcut for the own unit",
    """
from dispersion import Spectrum
s = Spectrum(512.3456, unit='nm')
s.convert_to('wavelength', 'm', in_place=True)
assert abs(s.convert_to('wavelength', 'm') - 512.3456e-9) < 1e-15
""")
bug('c02-sorted-list', 'C02', [('spectrum.py', """            values = np.array(values)
        if not""", """            values = np.sort(np.array(values))
        if not""")],
    "a list or tuple that is not ascending", "values of lists come back in another order than those of arrays",
    """
from dispersion import Spectrum
s = Spectrum([700.0, 500.0, 600.0], unit='nm')
assert np.allclose(s.convert_to('wavelength', 'um'), [0.7, 0.5, 0.6])
""")
bug('c02-int-list', 'C02', [('spectrum.py', """            values = np.array(values)
        if not""", """            values = np.array(values, dtype=int if isinstance(values[0], int) and values[0] > 1 else None)
        if not""")],
    "a list whose first value is an integer and a later one is not", "later values are truncated to integers",
    """
from dispersion import Spectrum
s = Spectrum([500, 500.75], unit='nm')
assert np.allclose(s.convert_to('wavelength', 'nm'), [500.0, 500.75])
""")
bug('c03-unit-of-other-type', 'C03', [('spectrum.py', """            if (unit in aliases and
                    unit_type in Spectrum.SPECTRUM_TYPES[spectrum_type]):""", """            if (unit in aliases and
                    (unit_type in Spectrum.SPECTRUM_TYPES[spectrum_type] or
                     unit_type in Spectrum.SPECTRUM_TYPES['wavelength'])):""")],
    "a wavelength unit given for another quantity", "energy in nanometre is accepted",
    """
from dispersion import Spectrum
assert raises(lambda: Spectrum(1.0, spectrum_type='energy', unit='nm'), ValueError)
""")
bug('c03-alias-lost', 'C03', [('spectrum.py', "'1/s': {'1/s', 'rad/s'},", "'1/s': {'1/s', 'rads/s'},")],
    "an angular frequency given in rad/s", "a documented alias is rejected",
    """
from dispersion import Spectrum
assert Spectrum(1.0e15, spectrum_type='angularfrequency', unit='rad/s').unit == '1/s'
""")
# ------------------------------------------------------------------ evaluation
bug('c04-tolerance', 'C04', [('spectrum.py', "        elif other_max > self_max:", "        elif other_max > self_max*(1 + 1e-6):")],
    "a value just above the upper bound of the range", "values outside the range are accepted",
    """
from dispersion import Spectrum
r = Spectrum([400.0, 700.0], unit='nm')
assert raises(lambda: r.contains(Spectrum(700.0002, unit='nm')), ValueError)
""")
bug('c04-constant-scalar', 'C04', [('spectral_data.py', """        self.valid_range.contains(spectrum)
        if isinstance(spectrum.values, (list, tuple, np.ndarray)):
            return self.constant * np.ones(len(spectrum.values))""", """        if isinstance(spectrum.values, (list, tuple, np.ndarray)):
            self.valid_range.contains(spectrum)
            return self.constant * np.ones(len(spectrum.values))""")],
    "a scalar spectrum outside the range of constant data (a one-row table)", "constant data is evaluated outside its range",
    """
from dispersion import Material
m = Material(tabulated_n=np.array([[500.0, 1.5]]), spectrum_type='wavelength', unit='nm')
assert raises(lambda: m.get_nk_data(600e-9), ValueError)
""")
bug('c04-first-last', 'C04', [('spectrum.py', """        other_min = np.min(other_values)
        other_max = np.max(other_values)""", """        other_values = np.atleast_1d(other_values)
        other_min = min(other_values[0], other_values[-1])
        other_max = max(other_values[0], other_values[-1])""")],
    "an unsorted spectrum whose extreme value is neither first nor last", "only the end points are range checked",
    """
from dispersion import Spectrum
r = Spectrum([400.0, 700.0], unit='nm')
assert raises(lambda: r.contains(Spectrum([500.0, 900.0, 600.0], unit='nm')), ValueError)
""")
bug('c05-shared-answer', 'C05', [('spectral_data.py', """        self.valid_range.contains(spectrum)
        values = spectrum.convert_to(self.spectrum_type, self.unit)
        return self.interpolation(values)""", """        self.valid_range.contains(spectrum)
        values = spectrum.convert_to(self.spectrum_type, self.unit)
        last = getattr(self, '_last', None)
        if last is None or not np.array_equal(last[0], values):
            last = (values, self.interpolation(values))
            self._last = last
        return last[1]""")],
    "two evaluations at the same values with the first answer modified in between",
    "the answer is a shared cache entry, so the caller's changes come back",
    """
from dispersion import Interpolation, Spectrum
d = Interpolation(np.array([[1.0, 1.0], [2.0, 2.0]]), unit='um')
a = d.evaluate(Spectrum([1.25, 1.5], unit='um'))
a *= 0
b = d.evaluate(Spectrum([1.25, 1.5], unit='um'))
assert np.allclose(b, [1.25, 1.5]), b
""")
bug('c05-sort-table', 'C05', [('spectral_data.py', """        self.data = data
        self.interp_order""", """        self.data = data if data[0, 0] < data[-1, 0] else data[::-1]
        if self.data is not data:
            data[:] = self.data.copy()
            self.data = data
        self.interp_order""")],
    "a table in descending order", "the caller's array is reversed in place",
    """
from dispersion import Interpolation
t = np.array([[2.0, 2.0], [1.0, 1.0]])
Interpolation(t, unit='um')
assert t[0, 0] == 2.0
""")
bug('c05-preprocess-inplace', 'C05', [('spectral_data.py', """        new_spectrum = spectrum.convert_to(self.spectrum_type,
                                           self.unit)
        if isinstance""", """        spectrum.convert_to(self.spectrum_type, self.unit, in_place=True)
        new_spectrum = spectrum.values
        if isinstance""")],
    "a model evaluated through its data object or permittivity with a spectrum in other units",
    "the caller's spectrum is converted",
    """
from dispersion import Material, Spectrum
m = Material(model_kw={'name': 'Drude', 'spectrum_type': 'energy', 'unit': 'ev', 'valid_range': np.array([0.1, 10.]),
                       'parameters': np.array([9., 0.1])}, spectrum_type='energy', unit='ev')
s = Spectrum(500.0, unit='nm')
m.get_permittivity(s)
assert s.unit == 'nm' and s.values == 500.0
""")
bug('c06-lossless-sqrt', 'C06', [('material.py', """        if self.data['name'] == 'eps':
            complex_val = np.sqrt(complex_val)
        return complex_val""", """        if self.data['name'] == 'eps':
            if np.all(np.imag(complex_val) == 0.0):
                complex_val = np.sqrt(np.abs(np.real(complex_val))) + 0j
            else:
                complex_val = np.sqrt(complex_val)
        return complex_val""")],
    "a lossless material with negative permittivity", "its refractive index comes back real",
    """
from dispersion import Material
m = Material(fixed_eps=-4.0+0j)
assert np.isclose(m.get_nk_data(1e-6), 2j)
""")
bug('c06-raw-type', 'C06', [('material.py', """            spectrum = Spectrum(spectrum_values,
                                spectrum_type=spectrum_type,
                                unit=unit)

        if not (self.data['name'] == 'nk' or""", """            spectrum = Spectrum(spectrum_values,
                                spectrum_type=spectrum_type,
                                unit=self.defaults['unit'] if unit == 'meter' else unit)

        if not (self.data['name'] == 'nk' or""")],
    "raw values in metres for a material with other units", "the two queries use different default units",
    """
from dispersion import Material
m = Material(tabulated_n=np.array([[400.0, 1.5], [800.0, 1.7]]), spectrum_type='wavelength', unit='nm')
assert np.isclose(m.get_permittivity(600e-9), 1.6**2)
""")
bug('c07-gain-sign', 'C07', [('material.py', "self.data['imag'] = Constant(np.imag(inputs['fixed_nk']))",
     "self.data['imag'] = Constant(np.abs(np.imag(inputs['fixed_nk'])))")],
    "a fixed refractive index with negative imaginary part", "gain becomes loss",
    """
from dispersion import Material
assert Material(fixed_nk=1.5-0.1j).get_nk_data(1e-6) == 1.5-0.1j
""")
bug('c07-two-sources', 'C07', [('material.py', """                              "tabulated_n", "tabulated_eps",
                              "model_kw"}""", """                              "tabulated_n", "tabulated_eps"}
        if args.get("model_kw") is not None and len(args) == 1:
            mutually_exclusive.add("model_kw")
        elif args.get("model_kw") is not None:
            mutually_exclusive = mutually_exclusive - {"fixed_n", "fixed_nk"} | {"model_kw"}""")],
    "a model together with a fixed index", "two sources are accepted and one ignored",
    """
from dispersion import Material
kw = {'name': 'Cauchy', 'spectrum_type': 'wavelength', 'unit': 'um', 'valid_range': np.array([0.3, 2.]),
      'parameters': np.array([1.5])}
assert raises(lambda: Material(model_kw=kw, fixed_n=1.5))
""")
bug('c08-gases-cap', 'C08', [('spectral_data.py', """            cupper = self.model_parameters[iterc*2+1]
            clower = self.model_parameters[iterc*2+2]
            rhs += cupper/(clower-wvlinvsq)""", """            cupper = self.model_parameters[iterc*2+1]
            clower = self.model_parameters[iterc*2+2]
            rhs += cupper/(clower-wvlinvsq) if iterc < 5 else 0""")],
    "a gas formula with more than five terms", "further terms are dropped",
    """
from dispersion import Gases, Spectrum
p = np.array([0.0] + [0.01, 100.0]*6)
g = Gases(p, [0.3, 2.0], unit='um')
assert np.isclose(g.evaluate(Spectrum(1.0, unit='um')), 1 + 6*0.01/99.0)
""")
bug('c08-rii-wrong-slice', 'C08', [('spectral_data.py', "range(len(self.model_parameters[9::2]))", "range(len(self.model_parameters[9:16:2]))")],
    "formula 4 with more than four polynomial terms", "the last supplied terms are ignored",
    """
from dispersion import RefractiveIndexInfo, Spectrum
p = np.array([2.0] + [0.0, 1.0, 0.1, 2.0]*2 + [0.1, 1.0]*5)
g = RefractiveIndexInfo(p, [0.3, 2.0], unit='um')
assert np.isclose(g.evaluate(Spectrum(1.0, unit='um')), np.sqrt(2.5))
""")
bug('c08-lorentz-conj', 'C08', [('spectral_data.py', "return ones +  np.conj(pol_str*omega_p**2/((w_res**2-np.power(energies, 2))+1j*loss*energies))",
     "return ones +  pol_str*omega_p**2/((w_res**2-np.power(energies, 2))+1j*loss*energies)")],
    "any lossy Drude-Lorentz pole", "the imaginary part of the permittivity is negative",
    """
from dispersion import DrudeLorentz, Spectrum
d = DrudeLorentz(np.array([3.0, 0.5, 2.0, 0.1]), [0.1, 10.0], spectrum_type='energy', unit='ev')
assert d.evaluate(Spectrum(2.0, spectrum_type='energy', unit='ev')).imag > 0
""")
bug('c09-same-type-no-unit', 'C09', [('spectral_data.py', """        new_spectrum = spectrum.convert_to(self.spectrum_type,
                                           self.unit)
        if isinstance""", """        if spectrum.unit == self.required_unit or spectrum.unit == 'a':
            new_spectrum = spectrum.values
        else:
            new_spectrum = spectrum.convert_to(self.spectrum_type,
                                               self.unit)
        if isinstance""")],
    "a request in angstrom", "angstrom are taken for the native unit",
    """
from dispersion import Cauchy, Spectrum
c = Cauchy(np.array([1.5, 0.01, -2.0]), [0.3, 2.0], unit='um')
assert np.isclose(c.evaluate(Spectrum(5000.0, unit='a')), c.evaluate(Spectrum(0.5, unit='um')))
""")
bug('c09-unit-unchecked', 'C09', [('spectral_data.py', """        if not tmp_spectrum.unit == self.required_unit:
            raise ValueError("unit for model " +""", """        if not tmp_spectrum.unit[-1] == self.required_unit[-1]:
            raise ValueError("unit for model " +""")],
    "a wavelength model declared in nanometre or metre", "the wrong unit is accepted",
    """
from dispersion import Cauchy
assert raises(lambda: Cauchy(np.array([1.5]), [300., 2000.], unit='nm'), ValueError)
""")
bug('c10-bruggeman-order', 'C10', [('material.py', """        eps_eff[indices2] = solution2[indices2]
        eps_eff[indices1] = solution1[indices1]""", """        eps_eff[indices1] = solution1[indices1]
        eps_eff[indices2] = solution2[indices2]""")],
    "lossless constituents, where both roots qualify", "the unphysical '-' root is chosen",
    """
from dispersion import Material, Spectrum
from dispersion.material import Bruggeman
s = Spectrum(np.array([500.0, 600.0]), unit='nm')
m = Bruggeman(s, Material(fixed_eps_r=2.0), Material(fixed_eps_r=4.0), 0.5)
assert np.all(np.real(m.get_permittivity(s)) > 0)
""")
bug('c10-fraction', 'C10', [('material.py', "        if self.frac < 0. or self.frac > 1.0:", "        if abs(self.frac) > 1.0:")],
    "a negative filling fraction", "it is accepted",
    """
from dispersion import Material, Spectrum
from dispersion.material import Simple
s = Spectrum(np.array([500.0, 600.0]), unit='nm')
assert raises(lambda: Simple(s, Material(fixed_eps_r=2.0), Material(fixed_eps_r=4.0), -0.5), ValueError)
""")
bug('c11-bound-itself', 'C11', [('spectral_data.py', "        if extrap_val < base_range[0]:", "        if extrap_val <= base_range[0]:")],
    "an extrapolation request that equals the lower bound", "a request inside the known range is not refused",
    """
from dispersion import Material, Spectrum
m = Material(tabulated_n=np.array([[400.0, 1.5], [500., 1.6], [800.0, 1.7]]), spectrum_type='wavelength', unit='nm')
assert raises(lambda: m.extrapolate(Spectrum(400.0, unit='nm')), ValueError)
""")
bug('c11-spline-everywhere', 'C11', [('spectral_data.py', """            self.base_spectral_data.valid_range.contains(spectrum)
            return self.base_spectral_data.evaluate(spectrum)""", """            self.base_spectral_data.valid_range.contains(spectrum)
            if self.spline_order <= 2:
                return self.base_spectral_data.evaluate(spectrum)
            values = spectrum.convert_to(self.spectrum_type, self.unit)
            return splev(values, self.extrapolation)""")],
    "a spline order above 2 and a request inside the known range", "known values are replaced by the spline",
    """
from dispersion import Material, Spectrum
m = Material(tabulated_n=np.array([[400.0, 1.5], [500., 1.9], [800.0, 1.7]]), spectrum_type='wavelength', unit='nm')
a = m.get_nk_data(499.7e-9)
m.extrapolate(Spectrum(900.0, unit='nm'), spline_order=3)
assert m.get_nk_data(499.7e-9) == a
""")
bug('c12-sample-unit', 'C12', [('material.py', """            spectrum = Spectrum(values,
                                spectrum_type=self.defaults['spectrum_type'],
                                unit=self.defaults['unit'])
        return spectrum""", """            spectrum = Spectrum(values[::-1]*(1 + 1e-3*(max_range[0] < 1.0)),
                                spectrum_type=self.defaults['spectrum_type'],
                                unit=self.defaults['unit'])
        return spectrum""")],
    "a material whose range starts below 1 in its own unit", "the sample spectrum leaves the valid range",
    """
from dispersion import Material
m = Material(tabulated_n=np.array([[0.4, 1.5], [0.8, 1.7]]), spectrum_type='wavelength', unit='um')
v = m.get_sample_spectrum().values
assert v.max() <= 0.8*(1 + 1e-12)
""")
# ------------------------------------------------------------------ files
bug('c13-collapse-units', 'C13', [('material.py', """        if datasets[0]['Unit'] != datasets[1]['Unit']:
            collapse = False

""", "")],
    "n and k tables with the same numbers in different units", "they are merged under the unit of n",
    """
from dispersion import Material, Interpolation, Writer
m = Material(tabulated_n=np.array([[1.0, 1.5], [2.0, 1.7]]), spectrum_type='wavelength', unit='um')
m.data['imag'] = Interpolation(np.array([[1.0, 0.5], [2.0, 0.7]]), spectrum_type='wavelength', unit='cm')
d = m.dataset_to_dict()
assert len(d) == 2
""")
bug('c13-falsy-meta', 'C13', [('material.py', """            if key == "Alias":
                continue""", """            if key == "Alias" or key.endswith('Name'):
                continue""")],
    "a material with a name", "name and full name are not written",
    """
from dispersion import Material, Writer
m = Material(tabulated_n=np.array([[1.0, 1.5], [2.0, 1.7]]), spectrum_type='wavelength', unit='um')
m.meta_data['FullName'] = 'Some Glass'
Writer(SCRATCH + '/a.yml', m).write_file()
assert Material(file_path=SCRATCH + '/a.yml').meta_data['FullName'] == 'Some Glass'
""")
bug('c13-spec-value', 'C13', [('io.py', """                    if spec_key == key:
                        yaml_spec[spec_key] = val""", """                    if key.endswith(spec_key):
                        yaml_spec[spec_key] = val""")],
    "a specification with both temperature and deposition_temperature", "one overwrites the other",
    """
from dispersion import Material, Writer
m = Material(tabulated_n=np.array([[1.0, 1.5], [2.0, 1.7]]), spectrum_type='wavelength', unit='um')
m.meta_data['Specification'] = {'temperature': '20', 'deposition_temperature': '300'}
Writer(SCRATCH + '/a.yml', m).write_file()
assert Material(file_path=SCRATCH + '/a.yml').meta_data['Specification']['temperature'] == '20'
""")
bug('c14-colon-lost', 'C14', [('io.py', """arg = ":".join(kwd_arg[1:]).rstrip("\\n\\r").lstrip()""", """arg = kwd_arg[1].rstrip("\\n\\r").lstrip()""")],
    "a metadata value with a colon in a text file", "everything after the colon is lost",
    """
from dispersion import Material, Writer
m = Material(tabulated_nk=np.array([[1.0, 1.5, 0], [2.0, 1.7, 0]]), spectrum_type='wavelength', unit='um')
m.meta_data['Reference'] = 'doi: 10.1000/1'
Writer(SCRATCH + '/a.txt', m).write_file()
assert Material(file_path=SCRATCH + '/a.txt').meta_data['Reference'] == 'doi: 10.1000/1'
""")
bug('c14-unit-header', 'C14', [('io.py', """        header += "UNIT: {}\\n".format(unit)
""", """        if unit != 'nanometer':
            header += "UNIT: {}\\n".format(unit.rstrip('er'))
""")],
    "a table in micrometer or electronvolt", "the unit in the header is mangled so that the file means something else",
    """
from dispersion import Material, Writer
m = Material(tabulated_nk=np.array([[1.0, 1.5, 0], [2.0, 1.7, 0]]), spectrum_type='wavelength', unit='meter')
Writer(SCRATCH + '/a.txt', m).write_file()
r = Material(file_path=SCRATCH + '/a.txt')
assert np.isclose(r.get_nk_data(1.5), m.get_nk_data(1.5))
""")
bug('c15-k-first', 'C15', [('material.py', """        elif identifier == 'k':
            self.data['name'] = 'nk'
            self.data['imag'] = self._spec_data_from_table(table)""", """        elif identifier == 'k':
            self.data['name'] = 'nk'
            self.data.update(real=self.data['real'] or Constant(1.0),
                             imag=self._spec_data_from_table(table))""")],
    "a file with only a tabulated k dataset", "its real part becomes 1 instead of zero",
    """
from dispersion import Material
open(SCRATCH + '/a.yml', 'w').write('DATA:\\n  - type: tabulated k\\n    data: |\\n        0.5 0.1\\n        0.6 0.2\\n')
m = Material(file_path=SCRATCH + '/a.yml', spectrum_type='wavelength', unit='um')
assert np.real(m.get_nk_data(0.55e-6)) == 0.0
""")
bug('c15-formula-unit', 'C15', [('material.py', """        if meta_data['Unit']:
            model_dict['unit'] = meta_data['Unit']
        else:
            model_dict['unit'] = self.defaults['unit']""", """        if meta_data['Unit']:
            model_dict['unit'] = meta_data['Unit']
        else:
            model_dict['unit'] = 'micrometer'""")],
    "a model file without unit whose caller default is electronvolt", "the caller's default unit is ignored",
    """
from dispersion import Material
open(SCRATCH + '/a.yml', 'w').write('DATA:\\n  - type: model Drude\\n    wavelength_range: 0.1 10\\n    coefficients: 9.0 0.1\\n')
m = Material(file_path=SCRATCH + '/a.yml', spectrum_type='energy', unit='electronvolt')
assert np.isfinite(m.get_permittivity(2.0, spectrum_type='energy', unit='ev'))
""")
bug('c15-name-fullname', 'C15', [('io.py', """                    if kwd.startswith(key.upper()):
                        file_dict['MetaData'][key] = arg
                        valid = True
                        break""", """                    if kwd.endswith(key.upper()) or kwd.startswith(key.upper()):
                        file_dict['MetaData'][key] = arg
                        valid = True
                        break""")],
    "a YAML file with FULLNAME, and an unlucky iteration order of the keyword set", "FULLNAME ends up in Name",
    """
from dispersion import Material
import subprocess
if len(sys.argv) < 2:
    bad = 0
    for seed in range(8):
        bad += subprocess.run([sys.executable, '-W', 'ignore', __file__, 'x'],
                              env=dict(os.environ, PYTHONHASHSEED=str(seed))).returncode
    assert not bad
else:
    open(SCRATCH + '/a.yml', 'w').write('FULLNAME: Some Glass\\nDATA:\\n  - type: tabulated n\\n    data: |\\n        0.5 1.1\\n        0.6 1.2\\n')
    m = Material(file_path=SCRATCH + '/a.yml', spectrum_type='wavelength', unit='um')
    assert m.meta_data['FullName'] == 'Some Glass' and m.meta_data['Name'] == ''
""")
bug('c16-formula-number', 'C16', [('material.py', "            model_dict['name'] = method_ids[identifier]",
     "            model_dict['name'] = method_ids.get(identifier, 'Sellmeier')")],
    "a file with an unknown formula number", "it is silently read as formula 1",
    """
from dispersion import Material
open(SCRATCH + '/a.yml', 'w').write('DATA:\\n  - type: formula 12\\n    wavelength_range: 0.1 10\\n    coefficients: 0 1.0 0.1\\n')
assert raises(lambda: Material(file_path=SCRATCH + '/a.yml', spectrum_type='wavelength', unit='um'))
""")
bug('c16-skip-type', 'C16', [('io.py', """            else:
                raise KeyError("data type <{}> invalid".format(data_type))
""", """            elif len(mat_data) == 1:
                raise KeyError("data type <{}> invalid".format(data_type))
            else:
                dataset_list.pop()
                continue
""")],
    "an unknown dataset type next to a valid one", "the offending dataset is dropped",
    """
from dispersion import Material
open(SCRATCH + '/a.yml', 'w').write('DATA:\\n  - type: tabulated n\\n    data: |\\n        0.5 1.1\\n        0.6 1.2\\n  - type: measured k\\n    data: |\\n        0.5 1.1\\n        0.6 1.2\\n')
assert raises(lambda: Material(file_path=SCRATCH + '/a.yml', spectrum_type='wavelength', unit='um'))
""")
bug('c17-yaml-loader', 'C17', [('io.py', "yaml_data = yaml.load(fpt, Loader=yaml.FullLoader)", "yaml_data = yaml.load(fpt, Loader=getattr(yaml, 'CLoader', yaml.Loader))")],
    "a material file with a python tag", "loading the file runs code",
    """
from dispersion.io import read_yaml_file
open(SCRATCH + '/a.yml', 'w').write('COMMENTS: !!python/object/apply:os.mkdir ["%s/pwned"]\\n' % SCRATCH)
try:
    read_yaml_file(SCRATCH + '/a.yml')
except Exception:
    pass
assert not os.path.exists(SCRATCH + '/pwned')
""")
bug('c17-eval-coeff', 'C17', [('material.py', "            coefficients[iter_coeff] = float(coeff)", """            try:
                coefficients[iter_coeff] = float(coeff)
            except ValueError:
                coefficients[iter_coeff] = float(eval(coeff, {'np': np}))""")],
    "a coefficient that is not a number", "it is evaluated as code",
    """
from dispersion import Material
open(SCRATCH + '/a.yml', 'w').write('DATA:\\n  - type: formula 1\\n    wavelength_range: 0.1 10\\n    coefficients: 0 __import__("os").mkdir("%s/pwned") 0.1\\n' % SCRATCH)
try:
    Material(file_path=SCRATCH + '/a.yml', spectrum_type='wavelength', unit='um')
except Exception:
    pass
assert not os.path.exists(SCRATCH + '/pwned')
""")
bug('c18-previous-row', 'C18', [('io.py', """            new_rows.append(tabulated_data[row, :])
            last_valid = tabulated_data[row, 0]""", """            new_rows.append(tabulated_data[row, :])
        last_valid = tabulated_data[row, 0]"""), ('io.py', """        if not tabulated_data[row, 0] > last_valid:
            continue
        else:""", """        if tabulated_data[row, 0] > last_valid:""")],
    "a table that falls back by more than one row", "rows are compared with the previous row, not the last kept one",
    """
from dispersion.io import _str_table_to_numeric
t = _str_table_to_numeric("5 1\\n1 2\\n2 3\\n6 4")
assert t[:, 0].tolist() == [5.0, 6.0], t
""")
# ------------------------------------------------------------------ catalogue
CAT = """
import pandas as pd
from dispersion import Catalogue, Material, Writer
os.makedirs(SCRATCH + '/db/UserData')
def conf(**mods):
    return {'Path': SCRATCH + '/db', 'File': 'cat.csv', 'Interactive': False, 'WarnMissingPackages': False,
            'Modules': mods or {'UserData': True}, 'ReferenceSpectrum': {'Value': 500.0, 'SpectrumType': 'wavelength', 'Unit': 'nm'}}
def put(name, n, module='UserData'):
    os.makedirs(SCRATCH + '/db/' + module, exist_ok=True)
    open(SCRATCH + '/db/%s/%s' % (module, name), 'w').write('400 %s 0\\n600 %s 0\\n' % (n, n))
"""
bug('c19-alias-case', 'C19', [('catalogue.py', "            bool_array = self.database.Alias.values == identifier",
     "            bool_array = self.database.Alias.str.lower().values == identifier.lower()")],
    "two aliases that differ in letter case only", "the lookup loads the file of the other entry",
    CAT + """
put('a.txt', 1.5); put('b.txt', 2.5)
c = Catalogue(conf(), rebuild='All')
ia = int(c.database.index[c.database.Name == 'a'][0]); ib = 1 - ia
c.register_alias(0, 'Si'); c.register_alias(1, 'SI')
n1 = 1.5 if ia == 1 else 2.5
assert np.isclose(c.get_material('SI').get_nk_data(500e-9).real, n1)
""")
bug('c19-alias-strip', 'C19', [('catalogue.py', "            if not self.database.at[index, 'Alias'] == alias:",
     "            if not self.database.at[index, 'Alias'] == alias and self.database.at[index, 'Alias'] == '':")],
    "registering a used alias for an entry that already has another one", "two entries share an alias",
    CAT + """
put('a.txt', 1.5); put('b.txt', 2.5)
c = Catalogue(conf(), rebuild='All')
c.register_alias(0, 'x'); c.register_alias(1, 'y')
assert raises(lambda: c.register_alias(1, 'x'), ValueError)
""")
bug('c20-divider-break', 'C20', [('catalogue.py', """            if "DIVIDER" in page:
                continue
            elif "PAGE" in page:""", """            if "DIVIDER" in page:
                break
            elif "PAGE" in page:""")],
    "a book whose pages are separated by a divider", "the pages after the divider are missing",
    CAT + """
d = SCRATCH + '/db/RefractiveIndexInfo/database'
os.makedirs(d + '/data')
for f in 'ab':
    open(d + '/data/%s.yml' % f, 'w').write('DATA:\\n  - type: tabulated n\\n    data: |\\n        0.4 1.1\\n        0.6 1.2\\n')
open(d + '/library.yml', 'w').write('- SHELF: main\\n  name: main\\n  content:\\n    - BOOK: X\\n      name: XX\\n      content:\\n        - PAGE: p\\n          name: p\\n          data: a.yml\\n        - DIVIDER: other\\n        - PAGE: q\\n          name: q\\n          data: b.yml\\n')
c = Catalogue(conf(RefractiveIndexInfo=True), rebuild='All')
assert len(c.database) == 2
""")
bug('c20-reference-stale', 'C20', [('catalogue.py', """            try:
                ref_index = mat.get_nk_data(self.reference_spectrum)
            except ValueError as valE:
                ref_index = float('nan') + 1j* float('nan')
""", """            try:
                ref_index = mat.get_nk_data(self.reference_spectrum)
            except ValueError as valE:
                if not database_list:
                    ref_index = float('nan') + 1j* float('nan')
""")],
    "a file that does not cover the reference spectrum after one that does", "it is given the other file's reference index",
    CAT + """
put('a.txt', 1.5); put('c.txt', 2.5)
open(SCRATCH + '/db/UserData/b.txt', 'w').write('700 1.7 0\\n900 1.8 0\\n')
real = os.listdir
os.listdir = lambda p: sorted(real(p))
c = Catalogue(conf(), rebuild='All')
assert np.isnan(c.database.N_Reference[list(c.database.Name).index('b')])
""")
bug('c20-skip-state', 'C20', [('catalogue.py', """                self.rii_loader['current_full_name'] = book['name']
                pages = book['content']""", """                self.rii_loader.setdefault('current_full_name', book['name'])
                pages = book['content']""")],
    "a database with more than one book", "later entries carry the first book's full name",
    CAT + """
d = SCRATCH + '/db/RefractiveIndexInfo/database'
os.makedirs(d + '/data')
open(d + '/data/a.yml', 'w').write('DATA:\\n  - type: tabulated n\\n    data: |\\n        0.4 1.1\\n        0.6 1.2\\n')
book = '    - BOOK: %s\\n      name: %s\\n      content:\\n        - PAGE: p\\n          name: p\\n          data: a.yml\\n'
open(d + '/library.yml', 'w').write('- SHELF: main\\n  name: main\\n  content:\\n' + book % ('X', 'XX') + book % ('Y', 'YY'))
c = Catalogue(conf(RefractiveIndexInfo=True), rebuild='All')
assert list(c.database.FullName) == ['XX', 'YY']
""")
bug('c21-default-na', 'C21', [('catalogue.py', """                             na_values=Catalogue.NA_VALUES,
                             keep_default_na=False)""", """                             na_values=Catalogue.NA_VALUES)""")],
    "a text cell such as NA or an empty one", "it comes back as a missing value",
    CAT + """
put('NA.txt', 1.5)
c = Catalogue(conf(), rebuild='All')
c.save_to_file()
c = Catalogue(conf())
assert list(c.database.Name) == ['NA'] and list(c.database.Alias) == ['']
""")
bug('c21-keep-aliasless', 'C21', [('catalogue.py', "                    dframe = df[df.Module == module]",
     "                    dframe = df[df.Module == module].drop_duplicates(subset='Name')")],
    "an unselected module with two entries of the same name", "one of them is lost in the rebuild",
    CAT + """
put('a.txt', 1.5); put('a.csv', 1); open(SCRATCH + '/db/UserData/a.csv', 'w').write('400,1,0\\n600,1,0\\n'); put('f.txt', 1, 'Filmetrics')
mods = {'UserData': True, 'Filmetrics': True}
c = Catalogue(conf(**mods), rebuild='All'); c.save_to_file()
n = len(c.database)
assert len(Catalogue(conf(**mods), rebuild=['Filmetrics']).database) == n
""")
# ------------------------------------------------------------------ configuration, scripts
bug('c22-package-first', 'C22', [('config.py', """    if os.path.isfile(file_path):
        return user_dir
    pkg_dir = _get_package_dir()
    file_path = os.path.join(pkg_dir, 'config.yaml')
    if os.path.isfile(file_path):
        return pkg_dir""", """    pkg_dir = _get_package_dir()
    pkg_path = os.path.join(pkg_dir, 'config.yaml')
    if os.path.isfile(pkg_path):
        return pkg_dir
    if os.path.isfile(file_path):
        return user_dir""")],
    "both a user and a package configuration file", "the package file wins",
    """
import importlib
c = importlib.import_module('dispersion.config')
os.makedirs(SCRATCH + '/pkg', exist_ok=True)
c._get_package_dir = lambda: SCRATCH + '/pkg'
os.makedirs(SCRATCH + '/.config/dispersion', exist_ok=True)
open(SCRATCH + '/pkg/config.yaml', 'w').write('File: pkg.csv\\n')
open(SCRATCH + '/.config/dispersion/config.yaml', 'w').write('File: user.csv\\n')
assert c.get_config()['File'] == 'user.csv'
""")
bug('c22-module-type', 'C22', [('config.py', """    for value in config['Modules'].values():
        check_type(value,bool)""", """    for value in config['Modules'].values():
        if value:
            check_type(value,bool)""")],
    "a module setting of a falsy wrong type (0, '', None)", "it is not refused",
    """
from dispersion.config import default_config, validate_config
c = default_config()
validate_config(c)
c['Modules']['UserData'] = 0
assert raises(lambda: validate_config(c), ValueError)
""")
SETUP = """
import builtins, io
import dispersion.scripts.setup_dispersion as s
def run(fn, *answers, args=()):
    it = iter(answers)
    old = builtins.input
    builtins.input = lambda q='': next(it)
    try:
        return fn(*args)
    finally:
        builtins.input = old
"""
bug('c23-prefix-yes', 'C23', [('scripts/setup_dispersion.py', "        if confirmation1 in {'y', 'yes'}:", "        if 'yes'.startswith(confirmation1):")],
    "an empty answer to a confirmation", "it counts as yes",
    SETUP + """
assert run(s.get_confirmation, '', 'n', args=('ok?',)) is False
""")
bug('c23-default-unvalidated', 'C23', [('scripts/setup_dispersion.py', """        if user_input == "":
            user_input = default
        if validator(user_input):""", """        if user_input.strip() == "":
            user_input = default
            break
        if validator(user_input):""")],
    "an empty answer while the default is not valid", "an invalid default is accepted",
    SETUP + """
assert run(s.ask, '', 'ok', args=('?', 'bad', lambda v: v == 'ok')) == 'ok'
""")
bug('c23-success-ignored', 'C23', [('scripts/setup_dispersion.py', """            if success is False:
                conf['Modules'][module] = success""", """            if success is False and not os.listdir(module_dir):
                conf['Modules'][module] = success""")],
    "a module folder that exists with the wrong content", "the module is enabled although it is not present",
    SETUP + """
from dispersion import default_config
c = default_config(); c['Path'] = SCRATCH + '/db'
os.makedirs(SCRATCH + '/db/RefractiveIndexInfo/junk')
c = run(s.install_modules, 'y', 'n', args=(c,))
assert c['Modules']['RefractiveIndexInfo'] is False
""")
bug('c23-rebuild-else', 'C23', [('catalogue.py', """        elif ans == 'y':
            valid_ans = True
""", """        elif ans.strip():
            valid_ans = True
""")],
    "an unclear answer to the final rebuild confirmation", "the catalogue is rebuilt",
    SETUP + """
import dispersion.catalogue as c
made = []
class Cat:
    def __init__(self, **kw): made.append(kw)
    def save_to_file(self): pass
c.Catalogue = Cat
run(c.rebuild_catalogue, 'N', 'no', 'n')
assert not made
""")
bug('c24-backup', 'C24', [('io.py', """    with open(file_path, 'w', encoding='utf8') as fpt:
        text = text.rstrip""", """    with open(file_path + '~', 'w', encoding='utf8') as backup, \\
            open(file_path, 'w', encoding='utf8') as fpt:
        backup.write(current_text)
        text = text.rstrip""")],
    "writing a material with a meta comment", "a second file is left next to the target",
    """
from dispersion import Material, Writer
m = Material(tabulated_nk=np.array([[1.0, 1.5, 0], [2.0, 1.7, 0]]), spectrum_type='wavelength', unit='um')
m.meta_data['MetaComment'] = 'hello'
os.makedirs(SCRATCH + '/out')
Writer(SCRATCH + '/out/a.txt', m).write_file()
assert os.listdir(SCRATCH + '/out') == ['a.txt']
""")
bug('c24-handle-leak', 'C24', [('io.py', """        with codecs.open(self.file_path, 'r', 'utf-8') as fpt:
            for line in fpt:
                if line[0] == "#" or line[0] == ';':
                    comment.append(line[1:].rstrip("\\n\\r"))
                else:
                    return comment
        return comment""", """        fpt = codecs.open(self.file_path, 'r', 'utf-8')
        for line in fpt:
            if line[0] == "#" or line[0] == ';':
                comment.append(line[1:].rstrip("\\n\\r"))
            else:
                return comment
        fpt.close()
        return comment""")],
    "reading any file with data after the header", "the file stays open",
    """
import codecs
opened = []
real = codecs.open
def spy(*a, **k):
    f = real(*a, **k); opened.append(f); return f
codecs.open = spy
from dispersion import Material
open(SCRATCH + '/a.txt', 'w').write('# c\\n1 2\\n3 4\\n')
Material(file_path=SCRATCH + '/a.txt', spectrum_type='wavelength', unit='um')
assert all(f.stream.closed for f in opened)
""")
bug('c24-save-on-open', 'C24', [('catalogue.py', """        if rebuild != 'None':
            df = self.build_catalogue(df, rebuild)
        self.database = df""", """        if rebuild != 'None':
            df = self.build_catalogue(df, rebuild)
        self.set_database(df)
        if not os.path.exists(os.path.join(self.base_path, self.file_name)):
            self.save_to_file()""")],
    "rebuilding before a catalogue file exists", "building alone writes the catalogue file",
    CAT + """
put('a.txt', 1.5)
Catalogue(conf(), rebuild='All')
assert not os.path.exists(SCRATCH + '/db/cat.csv')
""")
bug('c25-prepend-locale', 'C25', [('io.py', """    with open(file_path, 'r', encoding='utf8') as fpt:
        current_text = fpt.read()""", """    with open(file_path, 'r') as fpt:
        current_text = fpt.read()""")],
    "a platform whose locale is not UTF-8, non-ASCII metadata and a meta comment", "the metadata is garbled or writing fails",
    """
from dispersion import Material, Writer
m = Material(tabulated_nk=np.array([[1.0, 1.5, 0], [2.0, 1.7, 0]]), spectrum_type='wavelength', unit='um')
m.meta_data['MetaComment'] = 'hello'
m.meta_data['Author'] = 'J\\u00f6rg'
Writer(SCRATCH + '/a.txt', m).write_file()
assert Material(file_path=SCRATCH + '/a.txt').meta_data['Author'] == 'J\\u00f6rg'
""", env='export LC_ALL=C PYTHONUTF8=0 PYTHONCOERCECLOCALE=0\n')
bug('c25-keyword-prefix', 'C25', [('io.py', """    FILE_META_DATA_KEYS = {"Comment", "Reference", "Author",
                           "Name", "FullName", "MetaComment"}""", """    FILE_META_DATA_KEYS = {"Comment", "Comments", "Reference", "Author",
                           "Name", "FullName", "MetaComment"}""")],
    "an unlucky hash seed", "the comment ends up under another key depending on the iteration order of a set",
    """
from dispersion import Material
import subprocess
if len(sys.argv) < 2:
    bad = 0
    for seed in range(8):
        bad += subprocess.run([sys.executable, '-W', 'ignore', __file__, 'x'],
                              env=dict(os.environ, PYTHONHASHSEED=str(seed))).returncode
    assert not bad
else:
    open(SCRATCH + '/a.txt', 'w').write('# COMMENTS: hello\\n1 2\\n3 4\\n')
    m = Material(file_path=SCRATCH + '/a.txt', spectrum_type='wavelength', unit='um')
    assert m.meta_data['Comment'] == 'hello'
""")
bug('c26-kind-ignored', 'C26', [('material.py', """        if not self.data['name'] == other.data['name']:
            return False
        return True""", """        if not self.data['name'] == other.data['name']:
            return self.meta_data['Name'] != ''
        return True""")],
    "an index and a permittivity material with the same name", "they compare equal",
    """
from dispersion import Material
a, b = Material(fixed_n=1.5), Material(fixed_eps_r=1.5)
a.meta_data['Name'] = b.meta_data['Name'] = 'x'
assert not (a == b)
""")


# ------------------------------------------------------------------ second batch
bug('c01-restandardise', 'C01', [('spectrum.py', """            self.values = converted_values
            self.spectrum_type = spectrum_type
""", """            self.values = converted_values
            self.standardise_values(converted_values)
            self.spectrum_type = spectrum_type
""")], "an in-place conversion followed by any other use", "the standard representation is computed with the old quantity and unit",
    """
from dispersion import Spectrum
s = Spectrum(np.array([500.0, 600.0]), unit='nm')
s.convert_to('energy', 'ev', in_place=True)
assert np.allclose(s.convert_to('wavelength', 'nm'), [500.0, 600.0]), s.convert_to('wavelength', 'nm')
""")
bug('c01-approx-light', 'C01', [('spectrum.py', "    return constants.c * inverse\n", "    return 2.998e8 * inverse\n")],
    "a conversion to frequency", "the round trip through frequency does not return the wavelength",
    """
from dispersion import Spectrum
f = Spectrum(500.0, unit='nm').convert_to('frequency', 'hz')
back = Spectrum(f, spectrum_type='frequency', unit='hz').convert_to('wavelength', 'nm')
assert abs(back - 500.0) < 1e-6, back
""")
bug('c02-float32-long', 'C02', [('spectrum.py', """            values = np.array(values)
        if not""", """            values = np.array(values, dtype=np.float32 if len(values) > 256 else None)
        if not""")], "a list of more than 256 values", "long lists lose precision compared with arrays",
    """
from dispersion import Spectrum
v = np.linspace(400.0, 700.0, 301)
assert np.array_equal(Spectrum(list(v), unit='nm').convert_to('wavelength', 'um'), Spectrum(v, unit='nm').convert_to('wavelength', 'um'))
""")
bug('c02-large-is-inf', 'C02', [('spectrum.py', """    elif value == np.inf:
        return 0.0
""", """    elif value >= np.finfo(np.float32).max:
        return 0.0
""")], "a scalar above 3.4e38", "a finite value becomes zero, and scalars differ from arrays",
    """
from dispersion import Spectrum
a = Spectrum(1e40, spectrum_type='frequency', unit='hz').standard_rep
b = Spectrum(np.array([1e40]), spectrum_type='frequency', unit='hz').standard_rep[0]
assert a == b, (a, b)
""")
bug('c03-target-case', 'C03', [('spectrum.py', "        unit = Spectrum.standardise_unit(spectrum_type, unit.lower())\n        values", "        unit = Spectrum.standardise_unit(spectrum_type, unit)\n        values")],
    "a conversion target spelled with capitals (eV, Hz)", "an accepted spelling is refused as a target",
    """
from dispersion import Spectrum
Spectrum(500.0, unit='nm').convert_to('energy', 'eV')
""")
bug('c03-no-label', 'C03', [('spectrum.py', """                     '1/s': '1/s',
                     '1/cm': '1/cm',
""", """                     'rad/s': '1/s',
                     '1/cm': '1/cm',
""")], "an axis label or an out-of-range message for an angular frequency", "KeyError instead of the label",
    """
from dispersion import Spectrum
assert Spectrum(1e15, spectrum_type='angularfrequency', unit='1/s').get_type_unit_string()
""")
bug('c04-descending-range', 'C04', [('spectrum.py', """        self_min = np.min(self.values)
        self_max = np.max(self.values)
""", """        self_min = np.ravel(self.values)[0]
        self_max = np.ravel(self.values)[-1]
""")], "a valid range given in descending order", "everything inside such a range is rejected",
    """
from dispersion import Sellmeier, Spectrum
m = Sellmeier([0.1, 1.0, 0.1], (2.0, 0.4), unit='um')
m.evaluate(Spectrum(1.0, unit='um'))
""")
bug('c04-extrapolated-unbounded', 'C04', [('spectral_data.py', """        except ValueError as e:
            self.valid_range.contains(spectrum)
            values = spectrum.convert_to(self.spectrum_type, self.unit)
""", """        except ValueError as e:
            values = spectrum.convert_to(self.spectrum_type, self.unit)
""")], "a spectrum beyond the bound of extrapolated data", "a number comes back instead of an error",
    """
from dispersion import Material, Spectrum
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.6], [600., 1.7], [700., 1.8]]))
m.extrapolate(Spectrum(800.0, unit='nm'))
assert raises(lambda: m.get_nk_data(Spectrum(900.0, unit='nm')), ValueError)
""")
bug('c04-inline-constant', 'C04', [('material.py', """        if self.data['complex'] is None:
            real = self.data['real'].evaluate(spectrum)
            imag = 1j*self.data['imag'].evaluate(spectrum)
            complex_val = real+imag
        else:
            complex_val = self.data['complex'].evaluate(spectrum)

        if self.data['name'] == 'nk':
""", """        if self.data['complex'] is None:
            real = self.data['real'].evaluate(spectrum)
            if isinstance(self.data['imag'], Constant):
                imag = 1j*self.data['imag'].constant
            else:
                imag = 1j*self.data['imag'].evaluate(spectrum)
            complex_val = real+imag
        else:
            complex_val = self.data['complex'].evaluate(spectrum)

        if self.data['name'] == 'nk':
""")], "a constant imaginary part with a bounded range, queried for the permittivity outside of it",
    "the range of the constant part is ignored",
    """
from dispersion import Material, Spectrum, Constant
m = Material(tabulated_n=np.array([[400., 1.5], [700., 1.8]]))
m.data['imag'] = Constant(0.1, valid_range=(450., 500.), unit='nm')
assert raises(lambda: m.get_permittivity(Spectrum(600.0, unit='nm')), ValueError)
""")
bug('c05-extrap-range-alias', 'C05', [('spectral_data.py', """        new_range = np.sort(np.array(base_spectrum.values, dtype=float))
""", """        new_range = base_spectrum.values
""")], "extrapolating a material and querying the original data object", "the range of the original data is widened",
    """
from dispersion import Interpolation, Extrapolation, Spectrum
base = Interpolation(np.array([[400., 1.5], [500., 1.6], [600., 1.7], [700., 1.8]]), unit='nm')
Extrapolation(base, Spectrum(800.0, unit='nm'))
assert base.valid_range.values[1] == 700.0
""")
bug('c05-medium-inplace', 'C05', [('material.py', """        eps_eff = eps_base*(1-self.frac) + eps_incl*(self.frac)
        wavelengths = self.spectrum.convert_to("wavelength", 'm')
""", """        eps_eff = eps_base*(1-self.frac) + eps_incl*(self.frac)
        self.spectrum.convert_to("wavelength", 'm', in_place=True)
        wavelengths = self.spectrum.values
""")], "a simple effective medium built with a spectrum the caller uses again", "the caller's spectrum is converted to metres",
    """
from dispersion import Material, Spectrum
from dispersion.material import Simple
s = Spectrum(np.array([400., 500.]), unit='nm')
Simple(s, Material(fixed_n=1.5), Material(fixed_n=2.0), 0.3)
assert s.unit == 'nm' and s.values[0] == 400.0
""")
bug('c05-alpha-inplace', 'C05', [('material.py', """            k = alpha*wvls/(np.pi*4.)
""", """            alpha *= wvls/(np.pi*4.)
            k = alpha
""")], "a table with absorption coefficients that the caller uses twice", "the caller's absorption column is overwritten",
    """
from dispersion import Material
t = np.array([[400., 1.5, 10.], [500., 1.6, 20.]])
Material(tabulated_n_alpha=t)
assert t[0, 2] == 10. and t[1, 2] == 20.
""")
bug('c05-meta-shared', 'C05', [('material.py', """        for key in self.meta_data:
            if key == "Alias":
                continue
            file_dict['MetaData'][key] = self.meta_data[key]
""", """        file_dict['MetaData'] = self.meta_data
        file_dict['MetaData'].pop("Alias", None)
""")], "preparing a material for writing", "the material loses its alias",
    """
from dispersion import Material, Writer
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.6]]))
m.meta_data['Alias'] = 'glass'
Writer(SCRATCH + '/x.yml', m)
assert m.meta_data.get('Alias') == 'glass'
""")
bug('c06-passive-branch', 'C06', [('material.py', """        if self.data['name'] == 'eps':
            complex_val = np.sqrt(complex_val)
        return complex_val

    def get_permittivity""", """        if self.data['name'] == 'eps':
            complex_val = np.sqrt(complex_val)
            complex_val = np.where(np.imag(complex_val) < 0, -complex_val, complex_val)
        return complex_val

    def get_permittivity""")], "a permittivity with negative imaginary part (gain)", "another branch than the principal root is returned",
    """
from dispersion import Material
n = Material(fixed_eps=2.0 - 0.5j).get_nk_data(500e-9)
assert np.real(n) > 0, n
""")
bug('c06-real-permittivity', 'C06', [('material.py', """        if self.data['name'] == 'nk':
            complex_val = np.power(complex_val, 2)
        return complex_val
""", """        if self.data['name'] == 'nk':
            complex_val = np.power(complex_val, 2)
        if not np.any(np.imag(complex_val)):
            complex_val = np.real(complex_val)
        return complex_val
""")], "a lossless material queried for its permittivity", "the permittivity is not complex",
    """
from dispersion import Material
assert np.iscomplexobj(Material(fixed_n=1.5).get_permittivity(np.array([500e-9, 600e-9])))
""")
bug('c07-order-cap', 'C07', [('material.py', """                             interp_order=self.options['interp_order'])
""", """                             interp_order=min(self.options['interp_order'], 2))
""")], "a requested interpolation order of three", "cubic interpolation is replaced by quadratic",
    """
from dispersion import Material
x = np.array([400., 450., 500., 560., 600., 700.]); y = np.array([1.5, 1.9, 1.4, 1.8, 1.2, 1.6])
from scipy.interpolate import interp1d
m = Material(tabulated_n=np.column_stack([x, y]), interp_order=3)
assert abs(np.real(m.get_nk_data(620.0, unit='nm')) - interp1d(x, y, kind=3)(620.0)) < 1e-9
""")
bug('c07-zero-value', 'C07', [('material.py', """        elif inputs['fixed_eps'] is not None:
            self.data['name'] = 'eps'
            self.data['real'] = Constant(np.real(inputs['fixed_eps']))
            self.data['imag'] = Constant(np.imag(inputs['fixed_eps']))
""", """        elif inputs['fixed_eps'] is not None:
            self.data['name'] = 'eps'
            self.data['real'] = Constant(np.real(inputs['fixed_eps']) or 1.0)
            self.data['imag'] = Constant(np.imag(inputs['fixed_eps']))
""")], "a fixed permittivity with vanishing real part", "it is replaced by one",
    """
from dispersion import Material
assert Material(fixed_eps=0.0 + 0.5j).get_permittivity(500e-9) == 0.5j
""")
bug('c07-wide-table', 'C07', [('material.py', "        not table.shape[1] == ncols):", "        not table.shape[1] >= ncols):")],
    "a table with more columns than the kind has", "it is accepted and the last column dropped",
    """
from dispersion import Material
assert raises(lambda: Material(tabulated_n=np.array([[400., 1.5, 0.1], [500., 1.6, 0.2]])))
""")
bug('c07-alpha-nm', 'C07', [('material.py', """            wvls = default_spectrum.convert_to('wavelength','cm')
""", """            if default_spectrum.spectrum_type == 'wavelength':
                wvls = default_spectrum.convert_to('wavelength', 'cm')
            else:
                wvls = default_spectrum.standard_rep
""")], "absorption coefficients tabulated over energy", "k is a hundred times too small",
    """
from dispersion import Material, Spectrum
m = Material(tabulated_n_alpha=np.array([[2.0, 1.5, 1e4], [3.0, 1.6, 1e4]]), spectrum_type='energy', unit='ev')
lam = Spectrum(2.0, spectrum_type='energy', unit='ev').convert_to('wavelength', 'cm')
assert abs(np.imag(m.get_nk_data(2.0, 'energy', 'ev')) - 1e4*lam/(4*np.pi)) < 1e-9
""")
bug('c08-exotic-width', 'C08', [('spectral_data.py', """                (np.power(wavelengths - self.model_parameters[4], 2) +
                 self.model_parameters[5]))""", """                (np.power(wavelengths - self.model_parameters[4], 2) +
                 self.model_parameters[5]**2))""")], "an Exotic model whose last coefficient is not 0 or 1", "the coefficient is squared",
    """
from dispersion import Exotic, Spectrum
c = [2.0, 0.3, 0.01, 0.2, 0.1, 0.5]; w = 1.2
want = np.sqrt(c[0] + c[1]/(w**2-c[2]) + c[3]*(w-c[4])/((w-c[4])**2+c[5]))
assert abs(Exotic(c, (0.5, 2.0), unit='um').evaluate(Spectrum(w, unit='um')) - want) < 1e-9
""")
bug('c08-cauchy-intpower', 'C08', [('spectral_data.py', """            rhs += c_multi*np.power(wavelengths, c_power)
        ref_index = rhs
        return ref_index
""", """            rhs += c_multi*np.power(wavelengths, int(c_power))
        ref_index = rhs
        return ref_index
""")], "a Cauchy exponent that is not an integer", "the exponent is truncated",
    """
from dispersion import Cauchy, Spectrum
got = Cauchy([1.5, 0.1, -1.5], (0.2, 2.0), unit='um').evaluate(Spectrum(0.5, unit='um'))
assert abs(got - (1.5 + 0.1*0.5**-1.5)) < 1e-9
""")
bug('c08-sellmeier2-short', 'C08', [('spectral_data.py', """            rhs += cupper*wvlsq/(wvlsq-clower)
        ref_index = np.sqrt(rhs+1.0)
""", """            if cupper <= 0:
                break
            rhs += cupper*wvlsq/(wvlsq-clower)
        ref_index = np.sqrt(rhs+1.0)
""")], "a Sellmeier-2 model with a negative or vanishing strength before the last term", "the terms from there on are dropped",
    """
from dispersion import Sellmeier2, Spectrum
c = [0.2, 0.0, 0.05, 1.1, 0.01]; w = 1.0
want = np.sqrt(1 + c[0] + c[1]*w**2/(w**2-c[2]) + c[3]*w**2/(w**2-c[4]))
assert abs(Sellmeier2(c, (0.5, 2.0), unit='um').evaluate(Spectrum(w, unit='um')) - want) < 1e-9
""")
bug('c08-tauc-log', 'C08', [('spectral_data.py', """                 ((E**2+Eg**2)/E) *
                 np.log( np.abs(E-Eg)/(E+Eg)))
""", """                 ((E**2+Eg**2)/E) *
                 np.log( np.maximum(E-Eg, 0.01)/(E+Eg)))
""")], "a Tauc-Lorentz permittivity below the band gap", "the real part is wrong there",
    """
from dispersion.spectral_data import TaucLorentz
from dispersion import Spectrum
import inspect
p = [100.0, 3.5, 1.0, 1.5, 1.2]
m = TaucLorentz(p, (0.5, 6.0), spectrum_type='energy', unit='ev')
from scipy.integrate import quad
A, E0, C, Eg, inf = p
im = lambda E: A*E0*C*(E-Eg)**2/((E**2-E0**2)**2+C**2*E**2)/E
want = inf + 2/np.pi*quad(lambda x: x*im(x)/(x**2-0.8**2), Eg, np.inf, limit=500)[0]
got = np.real(m.evaluate(Spectrum(0.8, spectrum_type='energy', unit='ev')))
assert abs(got - want) < 1e-4, (got, want)
""")
bug('c09-default-metre', 'C09', [('spectral_data.py', """        if not tmp_spectrum.unit == self.required_unit:
""", """        if tmp_spectrum.unit == 'm' and self.required_unit == 'um':
            self.unit = self.required_unit
            tmp_spectrum.unit = self.required_unit
        if not tmp_spectrum.unit == self.required_unit:
""")], "a wavelength model declared in metres", "the declaration is silently reinterpreted instead of refused",
    """
from dispersion import Cauchy
assert raises(lambda: Cauchy([1.5], (4e-7, 2e-6), unit='m'), ValueError)
""")
bug('c09-declared-output', 'C09', [('spectral_data.py', """        self.required_spectrum_type = 'energy'
        self.required_unit = 'ev'
        self.output = 'eps'
        self.validate_spectrum_type()

    def evaluate(self, spectrum):
        \"\"\"returns the value of the spectral data for the given spectrum\"\"\"
        [ones, energies] = self.preprocess(spectrum)
        omega_p = self.model_parameters[0] # plasma frequency in eV
        pol_str""", """        self.required_spectrum_type = 'energy'
        self.required_unit = 'ev'
        self.output = 'nk'
        self.validate_spectrum_type()

    def evaluate(self, spectrum):
        \"\"\"returns the value of the spectral data for the given spectrum\"\"\"
        [ones, energies] = self.preprocess(spectrum)
        omega_p = self.model_parameters[0] # plasma frequency in eV
        pol_str""")], "a Drude-Lorentz material", "its permittivity is taken for an index",
    """
from dispersion import Material
m = Material(model_kw={'name': 'DrudeLorentz', 'spectrum_type': 'energy', 'unit': 'ev', 'valid_range': np.array([0.5, 5.0]),
                       'parameters': np.array([3.0, 0.5, 2.0, 0.1])})
e = 1.0
want = 1 + 0.5*9.0/((4.0-1.0) - 1j*0.1)
assert abs(m.get_permittivity(e, 'energy', 'ev') - want) < 1e-9
""")
bug('c10-singular-all', 'C10', [('material.py', "        if np.any(abs(factor_down) < small_number_cutoff):", "        if np.all(abs(factor_down) < small_number_cutoff):")],
    "a Maxwell-Garnett denominator that vanishes at one of several samples", "the singular sample is not refused",
    """
from dispersion import Material, Spectrum
from dispersion.material import MaxwellGarnett
f = 0.4
host = Material(fixed_eps_r=1.0)
bad = -(2+f)/(1-f)
incl = Material(tabulated_eps=np.array([[400e-9, 2.0, 0.0], [500e-9, bad, 0.0], [600e-9, 3.0, 0.0]]), unit='m')
assert raises(lambda: MaxwellGarnett(Spectrum(np.array([400e-9, 500e-9, 600e-9])), host, incl, f), ValueError)
""")
bug('c10-sorted-axis', 'C10', [('material.py', """        eps_eff[indices1] = solution1[indices1]
        wavelengths = self.spectrum.convert_to("wavelength", 'm')
""", """        eps_eff[indices1] = solution1[indices1]
        wavelengths = np.sort(self.spectrum.convert_to("wavelength", 'm'))
""")], "a Bruggeman medium sampled over increasing energies", "the samples are attached to the wrong wavelengths",
    """
from dispersion import Material, Spectrum
from dispersion.material import Bruggeman
a = Material(tabulated_eps=np.array([[300e-9, 2.0, 0.0], [900e-9, 4.0, 0.0]]), unit='m')
s = Spectrum(np.array([1.5, 2.0, 3.0]), spectrum_type='energy', unit='ev')
m = Bruggeman(s, a, a, 0.5)
want = a.get_permittivity(Spectrum(1.5, spectrum_type='energy', unit='ev'))
assert abs(m.get_permittivity(Spectrum(1.5, spectrum_type='energy', unit='ev')) - want) < 1e-3
""")
bug('c10-lossless-zero', 'C10', [('material.py', "        indices1 = np.imag(solution1) >= 0.0\n        indices2 = np.imag(solution2) >= 0.0\n",
                                  "        indices1 = np.imag(solution1) > 0.0\n        indices2 = np.imag(solution2) >= 0.0\n")],
    "a Bruggeman medium of two lossless materials", "the negative '-' root is chosen although the '+' root qualifies",
    """
from dispersion import Material, Spectrum
from dispersion.material import Bruggeman
m = Bruggeman(Spectrum(np.array([400e-9, 600e-9])), Material(fixed_eps_r=2.0), Material(fixed_eps_r=4.0), 0.5)
assert np.all(np.real(m.get_permittivity(Spectrum(np.array([400e-9, 600e-9])))) > 0)
""")
bug('c11-part-by-part', 'C11', [('material.py', """                extrapolated[data_name] = Extrapolation(self.data[data_name],
                                                        new_spectrum,
                                                        spline_order=spline_order)
            self.data.update(extrapolated)
""", """                self.data[data_name] = Extrapolation(self.data[data_name],
                                                     new_spectrum,
                                                     spline_order=spline_order)
""")], "a request that the real part can serve and the imaginary part refuses", "the refused request has already changed the real part",
    """
from dispersion import Material, Spectrum, Interpolation
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.6], [600., 1.7], [700., 1.8]]))
m.data['imag'] = Interpolation(np.array([[400., .5], [500., .6], [600., .7], [900., .8]]), unit='nm')
before = m.data['real']
assert raises(lambda: m.extrapolate(Spectrum(800.0, unit='nm')), ValueError)
assert m.data['real'] is before
""")
bug('c11-default-order', 'C11', [('spectral_data.py', """        self.extrapolation = splrep(spectrum.values, evaluation,
                                    k=self.spline_order)
""", """        order = self.spline_order if self.spline_order > 1 else 2
        self.extrapolation = splrep(spectrum.values, evaluation,
                                    k=order)
""")], "a requested spline of order one", "a quadratic spline is used",
    """
from dispersion import Material, Spectrum
m = Material(tabulated_n=np.array([[400., 1.5], [450., 1.9], [500., 1.4], [600., 1.7], [700., 2.4]]), interp_order=2)
m.extrapolate(Spectrum(900.0, unit='nm'), spline_order=1)
v = [np.real(m.get_nk_data(Spectrum(x, unit='nm'))) for x in (760., 800., 840.)]
assert abs(v[0] - 2*v[1] + v[2]) < 1e-9, v
""")
bug('c11-raw-values', 'C11', [('spectral_data.py', """            values = spectrum.convert_to(self.spectrum_type, self.unit)
            return splev(values,self.extrapolation)
""", """            if spectrum.spectrum_type == self.spectrum_type.lower():
                values = spectrum.values
            else:
                values = spectrum.convert_to(self.spectrum_type, self.unit)
            return splev(values,self.extrapolation)
""")], "extrapolated data queried in another unit of the same quantity", "the spline is evaluated at unconverted values",
    """
from dispersion import Material, Spectrum
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.6], [600., 1.7], [700., 1.8]]))
m.extrapolate(Spectrum(900.0, unit='nm'))
assert abs(m.get_nk_data(Spectrum(0.8, unit='um')) - m.get_nk_data(Spectrum(800., unit='nm'))) < 1e-9
""")
bug('c12-zero-and-inf', 'C12', [('material.py', "        if max_range[0] == 0.0 or max_range[1] == np.inf:", "        if max_range[0] == 0.0 and max_range[1] == np.inf:")],
    "a material that is unbounded on one side only", "no usable sample spectrum is suggested",
    """
from dispersion import Material, Constant
m = Material(fixed_n=1.5)
m.data['real'] = Constant(1.5, valid_range=(200e-9, np.inf))
s = m.get_sample_spectrum()
assert np.all(np.isfinite(s.values))
""")
bug('c13-large-table', 'C13', [('io.py', "                                   threshold=sys.maxsize,\n", "                                   threshold=20000,\n")],
    "a table of more than 20000 numbers", "the rows in the middle are written as dots",
    """
from dispersion import Material, Writer
x = np.linspace(300., 900., 7000)
m = Material(tabulated_nk=np.column_stack([x, x*1e-3, x*1e-5]))
Writer(SCRATCH + '/x.yml', m).write_file()
r = Material(file_path=SCRATCH + '/x.yml')
assert np.allclose(r.get_nk_data(600., unit='nm'), m.get_nk_data(600., unit='nm'))
""")
bug('c13-rii-swap', 'C13', [('io.py', """                   "model Retro":"formula 8",
                   "model Exotic":"formula 9"}""", """                   "model Retro":"formula 9",
                   "model Exotic":"formula 8"}""")], "a Retro or Exotic model written with refractiveindex.info naming",
    "it is written as the other formula",
    """
from dispersion import Material, Writer
m = Material(model_kw={'name': 'Retro', 'spectrum_type': 'wavelength', 'unit': 'um', 'valid_range': np.array([0.4, 2.0]),
                       'parameters': np.array([0.1, 0.2, 0.01, 0.001])})
Writer(SCRATCH + '/x.yml', m).write_file(use_rii_aliases=True)
assert 'formula 8' in open(SCRATCH + '/x.yml').read()
""")
bug('c13-comment-lines', 'C13', [('io.py', """        mcomment = "\\n".join(self._read_text_comment())
""", """        mcomment = "\\n".join(line.strip() for line in self._read_text_comment())
""")], "a meta comment with indented lines", "the indentation is lost",
    """
from dispersion import Material, Writer
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.6]]))
m.meta_data['MetaComment'] = "first\\n  indented"
Writer(SCRATCH + '/x.yml', m).write_file()
assert Material(file_path=SCRATCH + '/x.yml').meta_data['MetaComment'] == "first\\n  indented"
""")
bug('c14-no-author', 'C14', [('io.py', """    DATA_META_DATA_KEYS = ['Reference', 'Author',
                           'FullName', 'Name', 'Comment']""", """    DATA_META_DATA_KEYS = ['Reference',
                           'FullName', 'Name', 'Comment']""")], "a text file of a material with an author", "the author is not written",
    """
from dispersion import Material, Writer
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.6]]))
m.meta_data['Author'] = 'Doe'
Writer(SCRATCH + '/x.txt', m).write_file()
assert Material(file_path=SCRATCH + '/x.txt').meta_data['Author'] == 'Doe'
""")
bug('c14-short-keyword', 'C14', [('io.py', """            if len(kwd_arg) == 1:
                multi_line_comment += line + "\\n"
""", """            if len(kwd_arg) == 1 or kwd_arg[1].strip() == "":
                multi_line_comment += line + "\\n"
""")], "a text file with empty metadata fields", "the empty fields come back as part of the meta comment",
    """
from dispersion import Material, Writer
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.6]]))
m.meta_data['Author'] = 'Doe'
Writer(SCRATCH + '/x.txt', m).write_file()
assert Material(file_path=SCRATCH + '/x.txt').meta_data['MetaComment'] == ''
""")
bug('c15-alpha-file', 'C15', [('material.py', """            default_spectrum = Spectrum(table[:, 0],
                                        self.defaults['spectrum_type'],
                                        self.defaults['unit'])
            wvls""", """            default_spectrum = Spectrum(table[:, 0], unit=self.defaults['unit']
                                        if self.defaults['spectrum_type'] == 'wavelength'
                                        else 'm')
            wvls""")], "an n_alpha dataset of a file over energy, or with the quantity capitalised", "k is computed as if the values were wavelengths in metres",
    """
from dispersion import Material
open(SCRATCH + '/x.txt', 'w').write('# SPECTRUMTYPE: Wavelength\\n# UNIT: nm\\n# DATATYPE: tabulated n_alpha\\n400 1.5 1e4\\n500 1.6 1e4\\n')
k = np.imag(Material(file_path=SCRATCH + '/x.txt').get_nk_data(400., unit='nm'))
assert abs(k - 1e4*400e-7/(4*np.pi)) < 1e-9, k
""")
bug('c15-keyword-case', 'C15', [('io.py', """            kwd = kwd.upper()
            valid = False
            if kwd == 'DATA':
                valid = True
                file_dict['Datasets']""", """            valid = False
            if kwd == 'DATA':
                valid = True
                file_dict['Datasets']""")], "a YAML file whose keywords are not all upper case", "the metadata are ignored",
    """
from dispersion import Material
open(SCRATCH + '/x.yml', 'w').write('References: book\\nDATA:\\n  - type: tabulated n\\n    data: |\\n        0.4 1.5\\n        0.5 1.6\\n')
assert Material(file_path=SCRATCH + '/x.yml', unit='um').meta_data['Reference'] == 'book'
""")
bug('c15-range-alias', 'C15', [('io.py', """        aliases = {'ValidRange': {'validRange', 'range',
                                  'spectra_range', 'wavelength_range'},""", """        aliases = {'ValidRange': {'validRange', 'range',
                                  'spectral_range', 'wavelength_range'},""")], "a model whose range is given as spectra_range",
    "the range is not found", """
from dispersion import Material
open(SCRATCH + '/x.yml', 'w').write('DATA:\\n  - type: formula 5\\n    spectra_range: 0.4 0.9\\n    coefficients: 1.5 0.01 -2\\n')
Material(file_path=SCRATCH + '/x.yml', unit='um')
""")
bug('c16-endless-range', 'C16', [('material.py', """        if meta_data['ValidRange']:
            valid_range = meta_data['ValidRange'].split()
""", """        if meta_data['ValidRange']:
            valid_range = meta_data['ValidRange'].split()
        else:
            valid_range = [0.0, np.inf]
""")], "a model dataset without range", "it is taken to be valid everywhere",
    """
from dispersion import Material
open(SCRATCH + '/x.yml', 'w').write('DATA:\\n  - type: formula 5\\n    coefficients: 1.5 0.01 -2\\n')
assert raises(lambda: Material(file_path=SCRATCH + '/x.yml', unit='um'))
""")
bug('c16-bad-cell', 'C16', [('io.py', """            numeric_col = []
            for col in row.split():
                numeric_col.append(float(col))
            numeric_table.append(numeric_col)
""", """            numeric_col = []
            try:
                for col in row.split():
                    numeric_col.append(float(col))
            except ValueError:
                continue
            numeric_table.append(numeric_col)
""")], "a YAML table with a non-numeric entry", "the row is dropped silently",
    """
from dispersion import Material
open(SCRATCH + '/x.yml', 'w').write('DATA:\\n  - type: tabulated n\\n    data: |\\n        0.4 1.5\\n        0.5 1,6\\n        0.6 1.7\\n')
assert raises(lambda: Material(file_path=SCRATCH + '/x.yml', unit='um'))
""")
bug('c16-writer-extension', 'C16', [('io.py', """        elif self.extension == '.yml':
            self._write_yaml_file()
""", """        elif self.extension.startswith('.y'):
            self._write_yaml_file()
""")], "writing to an extension that cannot be read back (.yaml)", "the unsupported extension is not refused",
    """
from dispersion import Material, Writer
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.6]]))
assert raises(lambda: Writer(SCRATCH + '/x.yaml', m).write_file(), ValueError)
""")
bug('c17-any-class', 'C17', [('material.py', """        try:
            identifier = getattr(spectral_data, field)
        except AttributeError:
            raise NameError("%s doesn't exist." % field)
""", """        try:
            identifier = getattr(spectral_data, field)
        except AttributeError:
            import pydoc
            located = pydoc.locate(field)
            if located is None:
                raise NameError("%s doesn't exist." % field)
            return located
""")], "a file whose model name is a dotted path", "any importable object can be called with the file's numbers",
    """
from dispersion import Material
open(SCRATCH + '/evil.py', 'w').write("open(%r, 'w').write('x')" % (SCRATCH + '/ran'))
sys.path.insert(0, SCRATCH)
open(SCRATCH + '/x.yml', 'w').write('DATA:\\n  - DataType: model evil.thing\\n    ValidRange: 0.4 0.9\\n    Parameters: 1.5\\n')
raises(lambda: Material(file_path=SCRATCH + '/x.yml', unit='um'))
assert not os.path.exists(SCRATCH + '/ran')
""")
bug('c18-duplicates', 'C18', [('io.py', """    return np.all(tabulated_data[1:, 0] > tabulated_data[:-1, 0])
""", """    return np.all(tabulated_data[1:, 0] >= tabulated_data[:-1, 0])
""")], "a sorted table with a duplicated spectral value", "the duplicate is kept",
    """
from dispersion import Material
open(SCRATCH + '/x.yml', 'w').write('DATA:\\n  - type: tabulated n\\n    data: |\\n        0.4 1.5\\n        0.5 1.6\\n        0.5 1.9\\n        0.6 1.7\\n')
m = Material(file_path=SCRATCH + '/x.yml', unit='um')
assert m.data['real'].data.shape[0] == 3
""")
bug('c18-first-dropped', 'C18', [('io.py', """    last_valid = tabulated_data[0, 0]
    for row in range(1, tabulated_data.shape[0]):
""", """    last_valid = tabulated_data[0, 0]
    if tabulated_data.shape[0] > 2 and last_valid > tabulated_data[1:, 0].max():
        new_rows, last_valid = [], -np.inf
    for row in range(1, tabulated_data.shape[0]):
""")], "a table whose first row has the largest spectral value", "another row than the first is kept",
    """
from dispersion.io import _str_table_to_numeric
t = _str_table_to_numeric("0.9 1.5\\n0.5 1.6\\n0.6 1.7")
assert t.shape == (1, 2) and t[0, 0] == 0.9, t
""")
bug('c19-label-lookup', 'C19', [('catalogue.py', "            row = self.database.iloc[identifier, :]", "            row = self.database.loc[identifier, :]")],
    "a catalogue whose rows have been filtered or reordered, addressed by row number", "another entry's file is loaded",
    """
from dispersion import Catalogue, default_config
import warnings
os.makedirs(SCRATCH + '/db/UserData')
for n, v in (('a', 1.5), ('b', 2.5)):
    open(SCRATCH + '/db/UserData/%s.txt' % n, 'w').write('400 %s\\n900 %s\\n' % (v, v))
c = default_config(); c['Path'] = SCRATCH + '/db'; c['Modules'] = {'UserData': True}
cat = Catalogue(config=c, rebuild='All')
cat.set_database(cat.get_database().iloc[::-1])
want = float(cat.get_database().iloc[0]['N_Reference'])
assert abs(np.real(cat.get_material(0).get_nk_data(500., unit='nm')) - want) < 1e-9
""")
bug('c19-selection-position', 'C19', [('catalogue.py', """                index = row_id.index[0]
""", """                index = self.database.index[self.database['Path'] == row_id['Path'].iloc[0]][0]
""")], "two entries of different modules with the same file name", "the alias goes to the first of them",
    """
from dispersion import Catalogue, default_config
for d in ('UserData', 'Filmetrics'):
    os.makedirs(SCRATCH + '/db/' + d)
    open(SCRATCH + '/db/%s/a.txt' % d, 'w').write('400 1.5\\n900 1.5\\n')
c = default_config(); c['Path'] = SCRATCH + '/db'; c['Modules'] = {'UserData': True, 'Filmetrics': True}
cat = Catalogue(config=c, rebuild='All')
db = cat.get_database()
cat.register_alias(db[db.Module == 'Filmetrics'], 'x')
db = cat.get_database()
assert list(db[db.Alias == 'x'].Module) == ['Filmetrics']
""")
bug('c20-unreadable-stops', 'C20', [('catalogue.py', """                    warnings.warn("file {} ".format(full_file) +
                                  "could not be opened, skipping")
                    continue
""", """                    warnings.warn("file {} ".format(full_file) +
                                  "could not be opened, skipping")
                    break
""")], "an unreadable page that is not the last of its book", "the readable pages after it are missing",
    """
from dispersion import Catalogue, default_config
d = SCRATCH + '/db/RefractiveIndexInfo/database/data'
os.makedirs(d)
open(d + '/b.yml', 'w').write('DATA:\\n  - type: tabulated n\\n    data: |\\n        0.4 1.5\\n        0.9 1.6\\n')
open(d + '/../library.yml', 'w').write('- SHELF: s\\n  name: S\\n  content:\\n  - BOOK: Ag\\n    name: Silver\\n    content:\\n'
    '    - {PAGE: p1, name: x, data: missing.yml}\\n    - {PAGE: p2, name: y, data: b.yml}\\n')
c = default_config(); c['Path'] = SCRATCH + '/db'; c['Modules'] = {'RefractiveIndexInfo': True}
assert len(Catalogue(config=c, rebuild='All').get_database()) == 1
""")
bug('c20-caught-all', 'C20', [('catalogue.py', """            try:
                ref_index = mat.get_nk_data(self.reference_spectrum)
            except ValueError as valE:
                ref_index = float('nan') + 1j* float('nan')

            content_dict['N_Reference'] = np.real(ref_index)
            content_dict['K_Reference'] = np.imag(ref_index)
""", """            try:
                ref_index = mat.get_nk_data(self.reference_spectrum)
            except ValueError as valE:
                ref_index = float('nan') + 1j* float('nan')

            content_dict['N_Reference'] = np.abs(ref_index)
            content_dict['K_Reference'] = np.imag(ref_index)
""")], "an absorbing user material", "the modulus is recorded instead of the real part",
    """
from dispersion import Catalogue, default_config
os.makedirs(SCRATCH + '/db/UserData')
open(SCRATCH + '/db/UserData/a.txt', 'w').write('400 1.5 2.0\\n900 1.5 2.0\\n')
c = default_config(); c['Path'] = SCRATCH + '/db'; c['Modules'] = {'UserData': True}
assert abs(Catalogue(config=c, rebuild='All').get_database().N_Reference[0] - 1.5) < 1e-9
""")
bug('c21-float-format', 'C21', [('catalogue.py', "                             index=False, index_label='Index')", "                             index=False, index_label='Index',\n                             float_format='%.6g')")],
    "a catalogue with bounds of more than six digits, opened and saved again", "saving rounds the numbers",
    """
from dispersion import Catalogue, default_config
os.makedirs(SCRATCH + '/db/UserData')
open(SCRATCH + '/db/UserData/a.txt', 'w').write('400.12345678 1.5\\n900 1.5\\n')
c = default_config(); c['Path'] = SCRATCH + '/db'; c['Modules'] = {'UserData': True}
Catalogue(config=c, rebuild='All').save_to_file()
Catalogue(config=c).save_to_file()
assert abs(Catalogue(config=c).get_database().SpectrumLowerBound[0] - 400.12345678) < 1e-6
""")
bug('c21-disabled-kept', 'C21', [('catalogue.py', """            else:
                if module in rebuild:
                    raise ValueError("Tried to rebuild module" +
                                     "{}".format(rebuild) +
                                     ", however this module is disabled" +
                                     " in the configuration.")
        return df_new
""", """            else:
                if module in rebuild:
                    raise ValueError("Tried to rebuild module" +
                                     "{}".format(rebuild) +
                                     ", however this module is disabled" +
                                     " in the configuration.")
                df_new = pd.concat([df_new, df[df.Module == module]], sort=False,
                                   ignore_index=True)
        return df_new
""")], "a rebuild after a module was disabled", "its entries stay in the catalogue",
    """
from dispersion import Catalogue, default_config
for d in ('UserData', 'Filmetrics'):
    os.makedirs(SCRATCH + '/db/' + d)
    open(SCRATCH + '/db/%s/a.txt' % d, 'w').write('400 1.5\\n900 1.5\\n')
c = default_config(); c['Path'] = SCRATCH + '/db'; c['Modules'] = {'UserData': True, 'Filmetrics': True}
Catalogue(config=c, rebuild='All').save_to_file()
c['Modules']['Filmetrics'] = False
assert list(Catalogue(config=c, rebuild=['UserData']).get_database().Module) == ['UserData']
""")
bug('c22-int-for-bool', 'C22', [('config.py', """    if not isinstance(value,val_type):
""", """    if val_type is bool and isinstance(value, int):
        return
    if not isinstance(value,val_type):
""")], "an integer where a truth value belongs", "the wrong type passes validation",
    """
from dispersion.config import default_config, validate_config
c = default_config(); c['Path'] = SCRATCH; c['Interactive'] = 2
assert raises(lambda: validate_config(c))
""")
bug('c22-shared-default', 'C22', [('config.py', """    config = read_yaml_string(yaml_str)
    config['Path'] = _get_user_config_dir()
    return config
""", """    if 'defaults' not in _CACHE:
        _CACHE['defaults'] = read_yaml_string(yaml_str)
    config = dict(_CACHE['defaults'])
    config['Path'] = _get_user_config_dir()
    return config

_CACHE = {}
""")], "changing a nested setting of one default configuration", "later default configurations carry the change",
    """
from dispersion.config import default_config
a = default_config(); a['Modules']['UserData'] = False
assert default_config()['Modules']['UserData'] is True
""")
bug('c22-empty-config', 'C22', [('config.py', """    except (OSError, ValueError) as exc:
        warn("No configuration file found, generating default config.")
        config = default_config()
    return config
""", """    except (OSError, ValueError) as exc:
        warn("No configuration file found, generating default config.")
        config = default_config()
    for module in ('UserData', 'RefractiveIndexInfo'):
        config['Modules'].setdefault(module, True)
    return config
""")], "a written configuration that lists only one module", "it reads back with a module that was not configured",
    """
from dispersion.config import default_config, write_config, get_config, _get_user_config_dir
c = default_config(); c['Modules'] = {'UserData': True}
write_config(c, dir_path=_get_user_config_dir())
assert get_config()['Modules'] == {'UserData': True}
""")
bug('c23-stripped-name', 'C23', [('scripts/setup_dispersion.py', """        if validator(user_input):
            valid_input = True
""", """        if validator(user_input.strip()):
            valid_input = True
""")], "a root path typed with a leading blank", "a relative path passes as absolute",
    """
import builtins
from dispersion.scripts import setup_dispersion as s
answers = iter([' /abs', '/good'])
builtins.input = lambda q='': next(answers)
assert s.ask('q {}', '/d', os.path.isabs) == '/good'
""")
bug('c23-config-elsewhere', 'C23', [('scripts/setup_dispersion.py', """    write_config(conf, dir_path=user_dir)
""", """    write_config(conf, dir_path=path if os.path.isfile(
        os.path.join(path, 'config.yaml')) else user_dir)
""")], "a root folder that contains a config.yaml already", "the configuration is stored there instead of the user's directory",
    """
import builtins
os.makedirs(SCRATCH + '/root'); open(SCRATCH + '/root/config.yaml', 'w').write('{}')
from dispersion.scripts import setup_dispersion as s
answers = iter([SCRATCH + '/root', 'y', '', 'y', 'n', 'n'])
builtins.input = lambda q='': next(answers)
s.main()
assert os.path.isfile(SCRATCH + '/.config/dispersion/config.yaml')
""")
bug('c24-read-makedirs', 'C24', [('io.py', """        self.file_path = file_path
        fname, extension = os.path.splitext(file_path)
        self.extension = extension
        self.default_file_dict = self._create_default_file_dict()
""", """        self.file_path = file_path
        fname, extension = os.path.splitext(file_path)
        self.extension = extension
        if os.path.dirname(fname):
            os.makedirs(os.path.dirname(fname), exist_ok=True)
        self.default_file_dict = self._create_default_file_dict()
""")], "reading a file from a folder that does not exist", "the folder is created",
    """
from dispersion import Material
raises(lambda: Material(file_path=SCRATCH + '/nowhere/x.txt'))
assert not os.path.exists(SCRATCH + '/nowhere')
""")
bug('c24-truncate-first', 'C24', [('io.py', """        meta_comment = self.file_dict['MetaData']['MetaComment']
        #raise""", """        meta_comment = self.file_dict['MetaData']['MetaComment']
        with open(self.file_name + '.lock', 'w'):
            pass
        #raise""")], "writing any material", "a lock file is left next to the target",
    """
from dispersion import Material, Writer
os.makedirs(SCRATCH + '/o')
Writer(SCRATCH + '/o/x.yml', Material(tabulated_n=np.array([[400., 1.5], [500., 1.6]]))).write_file()
assert os.listdir(SCRATCH + '/o') == ['x.yml']
""")
bug('c25-comment-locale', 'C25', [('io.py', """        with codecs.open(self.file_path, 'r', 'utf-8') as fpt:
            for line in fpt:
""", """        with open(self.file_path, 'r') as fpt:
            for line in fpt:
""")], "a header with non-ASCII metadata under a non-UTF-8 locale", "reading fails or garbles the text",
    """
import locale
from dispersion import Material
open(SCRATCH + '/x.txt', 'w', encoding='utf-8').write('# AUTHOR: M\\u00fcller\\n400 1.5\\n500 1.6\\n')
assert Material(file_path=SCRATCH + '/x.txt').meta_data['Author'] == 'M\\u00fcller'
""", env='export LC_ALL=C PYTHONUTF8=0 PYTHONCOERCECLOCALE=0\n')
bug('c25-set-order-alias', 'C25', [('io.py', """    DATASET_META_DATA_KEYS = {'ValidRange', 'DataType',
                              'SpectrumType', 'Unit',
                              'Yields'}
""", """    DATASET_META_DATA_KEYS = {'ValidRange', 'DataType', 'Data',
                              'SpectrumType', 'Unit',
                              'Yields'}
""")], "a text header with DATATYPE, under a hash seed that visits Data first", "the data type is stored as the data",
    """
import subprocess
open(SCRATCH + '/x.txt', 'w').write('# DATATYPE: tabulated k\\n# UNIT: nm\\n400 1.5\\n500 1.6\\n')
code = ("from dispersion import Material; import numpy as np; m = Material(file_path=%r); "
        "assert abs(m.get_nk_data(450., unit='nm') - 1.55j) < 1e-9" % (SCRATCH + '/x.txt'))
for seed in range(12):
    subprocess.run([sys.executable, '-W', 'ignore', '-c', code], check=True, env=dict(os.environ, PYTHONHASHSEED=str(seed)))
""")
bug('c26-file-arrays', 'C26', [('material.py', """        if not self.meta_data == other.meta_data:
            return False
""", """        if not self.meta_data == other.meta_data:
            return False

        if self._file_data and other._file_data:
            if self._file_data != other._file_data:
                return False
""")], "two materials read from text files", "comparing the stored arrays raises",
    """
from dispersion import Material
for n in 'ab':
    open(SCRATCH + '/%s.txt' % n, 'w').write('400 1.5\\n500 1.6\\n')
a, b = Material(file_path=SCRATCH + '/a.txt'), Material(file_path=SCRATCH + '/b.txt')
assert (a == b) in (True, False)
a._file_data['FilePath'] = b._file_data['FilePath']
assert (a == b) in (True, False)
""")
bug('c26-one-sided', 'C26', [('material.py', "        if not isinstance(other, Material):\n            return False\n\n        if not self.meta_data", "        if not isinstance(other, type(self)):\n            return False\n\n        if not self.meta_data")],
    "a material compared with an effective medium", "the answer depends on the direction",
    """
from dispersion import Material, Spectrum
from dispersion.material import Simple
s = Spectrum(np.array([400e-9, 500e-9]))
e = Simple(s, Material(fixed_n=1.5), Material(fixed_n=2.0), 0.3)
m = Material(fixed_eps_r=2.0)
assert m.__eq__(e) == e.__eq__(m)
""")
# ------------------------------------------------------------------ display, absorption, interactive
PLOT = """
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from dispersion import Material, Spectrum
"""
bug('c30-gain-shown-as-loss', 'C30', [('material.py', "        data_i = np.imag(data)\n", "        data_i = np.abs(np.imag(data))\n")],
    "a material with gain (negative imaginary part)", "gain is plotted as loss",
    PLOT + """
m = Material(tabulated_nk=np.array([[400.0, 1.5, -0.1], [800.0, 1.7, 0.1]]), spectrum_type='wavelength', unit='nm')
ax = plt.axes()
m.plot_nk_data(values=[400.0, 800.0], axes=ax)
assert np.allclose(ax.get_lines()[1].get_ydata(), [-0.1, 0.1])
""")
bug('c30-label-of-default', 'C30', [('material.py', "        xlabel = spectrum.get_type_unit_string()\n",
     "        xlabel = self.get_sample_spectrum().get_type_unit_string()\n")],
    "a plot in another unit than the material's own", "the axis names the wrong unit",
    PLOT + """
m = Material(tabulated_nk=np.array([[400.0, 1.5, 0.1], [800.0, 1.7, 0.1]]), spectrum_type='wavelength', unit='nm')
ax = plt.axes()
m.plot_permittivity(spectrum_type='energy', unit='ev', axes=ax)
assert ax.get_xlabel() == Spectrum(1.0, spectrum_type='energy', unit='ev').get_type_unit_string()
""")
bug('c30-other-axes', 'C30', [('material.py', "        plt.sca(axes)\n", "        if 'axes' not in kwargs:\n            plt.sca(axes)\n")],
    "axes passed that are not the current ones", "the curves are drawn on other axes",
    PLOT + """
m = Material(fixed_nk=1.5 + 0.1j)
fig, (a, b) = plt.subplots(2)
m.plot_nk_data(values=np.array([1e-6, 2e-6]), axes=a)
assert len(a.get_lines()) == 2 and not b.get_lines()
""")
bug('c30-values-converted', 'C30', [('material.py', """            if isinstance(values, (list, tuple)):
                values = np.array(values)
        spectrum = Spectrum(values,
                            spectrum_type=plot_data['spectrum_type'],
                            unit=plot_data['unit'])
        plot_data""", """            if isinstance(values, (list, tuple)):
                values = np.array(values)
        unit = plot_data['unit']
        if np.max(values) < 1e-5 and plot_data['spectrum_type'] == 'wavelength':
            unit = 'm'
        spectrum = Spectrum(values,
                            spectrum_type=plot_data['spectrum_type'],
                            unit=unit)
        plot_data""")],
    "a small value in the material's own unit", "it is silently taken as metres",
    PLOT + """
m = Material(tabulated_n=np.array([[1e-6, 1.5], [0.2, 1.7]]), spectrum_type='wavelength', unit='um')
ax = plt.axes()
m.plot_nk_data(values=[2e-6, 5e-6], axes=ax)
assert ax.get_xlabel() == Spectrum(1.0, unit='um').get_type_unit_string()
""")
bug('c30-ascii-replaced', 'C30', [('material.py', "codecs.decode(uni_str, 'ascii', 'ignore')", "codecs.decode(uni_str, 'ascii', 'replace')")],
    "a reference with a non-ASCII letter", "replacement characters are printed",
    """
import io, contextlib
from dispersion import Material
m = Material(fixed_n=1.5)
m.meta_data['Reference'] = 'M\\u00fcller 2019'
b = io.StringIO()
with contextlib.redirect_stdout(b):
    m.print_reference()
assert b.getvalue() == 'Mller 2019\\n', b.getvalue()
""")
bug('c31-keeps-range', 'C31', [('material.py', """        separate real and imaginary parts.
        \"\"\"
        self.data['imag'] = Constant(0.0)
""", """        separate real and imaginary parts.
        \"\"\"
        old = self.data['imag']
        if old is None:
            return
        rng = old.valid_range
        self.data['imag'] = Constant(0.0, valid_range=list(rng.values),
                                     spectrum_type=rng.spectrum_type,
                                     unit=rng.unit)
""")],
    "loss known in a smaller range than the index", "the material stays refused where only the loss was unknown",
    """
from dispersion import Material, Interpolation
m = Material(tabulated_n=np.array([[400.0, 1.5], [800.0, 1.7]]), spectrum_type='wavelength', unit='nm')
m.data['imag'] = Interpolation(np.array([[500.0, 0.1], [600.0, 0.2]]), unit='nm')
m.remove_absorption()
assert np.allclose(m.get_maximum_valid_range(), [400.0, 800.0])
assert np.isclose(m.get_nk_data(400.0, spectrum_type='wavelength', unit='nm'), 1.5)
""")
bug('c31-shared-constant', 'C31', [('material.py', """        separate real and imaginary parts.
        \"\"\"
        self.data['imag'] = Constant(0.0)
""", """        separate real and imaginary parts.
        \"\"\"
        if isinstance(self.data['imag'], Constant):
            self.data['imag'].value = 0.0
        else:
            self.data['imag'] = Constant(0.0)
""")],
    "two materials that share one constant loss", "the other material loses its absorption too",
    """
from dispersion import Material
a, b = Material(fixed_nk=1.5 + 0.1j), Material(fixed_nk=1.7 + 0.1j)
b.data['imag'] = a.data['imag']
a.remove_absorption()
assert a.get_nk_data(1e-6) == 1.5
assert b.get_nk_data(1e-6) == 1.7 + 0.1j
""")
bug('c31-index-of-eps', 'C31', [('material.py', """        separate real and imaginary parts.
        \"\"\"
        self.data['imag'] = Constant(0.0)
""", """        separate real and imaginary parts.
        \"\"\"
        self.data.update(complex=None, imag=Constant(0.0))
        self._complete_partial_data()
""")],
    "a model with coupled complex data", "its data is thrown away",
    """
from dispersion import Material
m = Material(model_kw={'name': 'Drude', 'spectrum_type': 'energy', 'unit': 'ev', 'valid_range': np.array([0.1, 5.0]), 'parameters': np.array([9.0, 0.1])})
v = m.get_permittivity(2.0, spectrum_type='energy', unit='ev')
m.remove_absorption()
assert np.isclose(m.get_permittivity(2.0, spectrum_type='energy', unit='ev'), v)
""")
GRID = """
import sys, types
class Grid:
    def __init__(self, df, **kw):
        self.df, self.kw, self.changed = df, kw, df
    def get_changed_df(self):
        return self.changed
sys.modules['qgrid'] = q = types.ModuleType('qgrid')
q.show_grid = Grid
from dispersion import Catalogue, default_config
os.makedirs(SCRATCH + '/db/UserData')
for n in ('a', 'b'):
    open(SCRATCH + '/db/UserData/%s.txt' % n, 'w').write('400 1.5\\n900 1.5\\n')
c = default_config(); c['Path'] = SCRATCH + '/db'; c['Modules'] = {'UserData': True}; c['Interactive'] = True
cat = Catalogue(config=c, rebuild='All')
"""
bug('c32-only-alias', 'C32', [('catalogue.py', "        self.database = self.qgrid_widget.get_changed_df()\n",
     "        self.database['Alias'] = self.qgrid_widget.get_changed_df()['Alias']\n")],
    "an edit of another column than the alias", "the edit is lost",
    GRID + """
g = cat.edit_interactive()
g.changed = g.df.copy()
g.changed.loc[0, 'Comment'] = 'mine'
cat.save_interactive()
assert cat.get_database().loc[0, 'Comment'] == 'mine'
""")
bug('c32-autosave', 'C32', [('catalogue.py', "        self.database = self.qgrid_widget.get_changed_df()\n",
     "        changed = self.qgrid_widget.get_changed_df()\n        self.set_database(changed)\n        if (changed.Alias != '').any():\n            self.save_to_file()\n")],
    "interactive changes that are not to be kept", "the catalogue file is overwritten without save_to_file",
    GRID + """
g = cat.edit_interactive()
g.changed = g.df.copy()
g.changed.loc[0, 'Alias'] = 'x'
cat.save_interactive()
assert not os.path.exists(SCRATCH + '/db/' + c['File'])
""")
bug('c32-stale-widget', 'C32', [('catalogue.py', """        grid_options = {'editable':False}
        self.qgrid_widget =""", """        grid_options = {'editable':self.qgrid_widget is not None}
        self.qgrid_widget =""")],
    "viewing again after the catalogue changed or after editing", "an outdated or editable grid is shown",
    GRID + """
cat.edit_interactive()
assert cat.view_interactive().kw['grid_options'] == {'editable': False}
""")
bug('c32-set-by-shape', 'C32', [('catalogue.py', "        self.database = database\n", "        if len(database) >= len(self.database):\n            self.database = database\n        else:\n            self.database.update(database)\n")],
    "setting a table with fewer entries", "entries that were removed stay",
    GRID + """
df = cat.get_database()
cat.set_database(df[df.Name == 'a'])
assert len(cat.get_database()) == 1
""")
# ------------------------------------------------------------------ magnitudes, lengths, particular values
bug('c06-tiny-loss', 'C06', [('material.py', """        if self.data['name'] == 'eps':
            complex_val = np.sqrt(complex_val)
        return complex_val
""", """        if self.data['name'] == 'eps':
            complex_val = np.sqrt(complex_val)
        if np.all(np.abs(np.imag(complex_val)) < 1e-6):
            complex_val = np.real(complex_val) + 0.0j
        return complex_val
""")], "a material with an extinction coefficient below 1e-6", "the loss is dropped from n,k but not from the permittivity",
    """
from dispersion import Material
m = Material(fixed_nk=1.5+1e-7j)
assert np.isclose(np.imag(m.get_nk_data(500e-9)), 1e-7, rtol=1e-6, atol=0)
""")
bug('c01-far-infrared', 'C01', [('spectrum.py', "        converted_values = np.round(values*1e6, decimals=9)\n",
     "        converted_values = np.round(values*1e6, decimals=9 if np.all(values < 1e-4) else 2)\n")],
    "wavelengths above 100 um", "conversion to micrometres rounds to 10 nm",
    """
from dispersion import Spectrum
s = Spectrum(np.array([123.456789e-6, 150e-6]))
assert abs(s.convert_to('wavelength', 'um')[0] - 123.456789) < 1e-8
""")
bug('c01-array-energy', 'C01', [('spectrum.py', "    return np.round((constants.h*constants.c/(constants.e))*inverse, decimals=9)\n",
     "    energies = (constants.h*constants.c/(constants.e))*inverse\n    return np.round(energies, decimals=9 if np.size(energies) < 64 else 4)\n")],
    "a grid of more than 63 values converted to energy", "the energies are rounded to 0.1 meV",
    """
from dispersion import Spectrum
v = np.linspace(400e-9, 800e-9, 101)
assert abs(Spectrum(v).convert_to('energy', 'ev')[3] - Spectrum(v[3:4]).convert_to('energy', 'ev')[0]) < 1e-8
""")
bug('c07-long-table', 'C07', [('spectral_data.py', """        self.data = data
        self.interp_order = interp_order
        min_range""", """        if data.shape[0] > 500:
            step = data.shape[0] // 500 + 1
            data = np.vstack([data[:-1:step], data[-1:]])
        self.data = data
        self.interp_order = interp_order
        min_range""")], "a table with more than 500 rows", "the table is thinned out, values between the kept rows change",
    """
from dispersion import Material
w = np.linspace(400., 900., 1001)
m = Material(tabulated_n=np.column_stack([w, 1.5 + 0.1*(np.arange(1001) % 2)]))
assert np.isclose(np.real(m.get_nk_data(w[502]*1e-9)), 1.5)
""")
bug('c04-long-grid', 'C04', [('spectrum.py', """        other_min = np.min(other_values)
        other_max = np.max(other_values)
        self_min""", """        if np.size(other_values) > 10:
            other_values = other_values[[0, -1]]
        other_min = np.min(other_values)
        other_max = np.max(other_values)
        self_min""")], "a request of more than ten values that is not sorted", "an inner value outside the valid range is not refused",
    """
from dispersion import Material, Spectrum
m = Material(model_kw={'name': 'Cauchy', 'spectrum_type': 'wavelength', 'unit': 'um', 'valid_range': np.array([0.3, 2.0]), 'parameters': np.array([1.5, 0.01, -2.0])})
v = np.linspace(0.4, 1.0, 12); v[5] = 5.0
assert raises(lambda: m.get_nk_data(Spectrum(v, unit='um')), ValueError)
""")
bug('c13-large-values', 'C13', [('io.py', """                                   max_line_width=sys.maxsize,
                                   floatmode='unique')""", """                                   max_line_width=sys.maxsize,
                                   precision=8,
                                   floatmode='unique' if np.max(np.abs(table)) < 1e4 else 'maxprec')""")],
    "tables with a number of 10000 or more, such as angstrom or nanometre values in the infrared", "written with eight decimals only",
    """
from dispersion import Material, Writer
t = np.array([[5000., 1.5, 1e-9/3], [20000., 1.6, 2e-9/3]])
m = Material(tabulated_nk=t, unit='nm')
Writer(SCRATCH + '/a.yml', m).write_file()
b = Material(file_path=SCRATCH + '/a.yml')
assert np.allclose(np.imag(b.get_nk_data(5000e-9)), 1e-9/3, rtol=1e-9, atol=0)
""")
bug('c14-many-rows', 'C14', [('io.py', """    string_array = np.array2string(np.asarray(table),
                                   threshold=sys.maxsize,""", """    string_array = np.array2string(np.asarray(table),
                                   threshold=3000,""")],
    "a table of more than 3000 numbers", "rows in the middle are replaced by dots",
    """
from dispersion import Material, Writer
w = np.linspace(400., 900., 1501)
t = np.column_stack([w, 1.5 + w*1e-4, w*1e-5])
m = Material(tabulated_nk=t, unit='nm')
Writer(SCRATCH + '/a.txt', m).write_file()
b = Material(file_path=SCRATCH + '/a.txt')
assert np.allclose(b.get_nk_data(600e-9), m.get_nk_data(600e-9))
""")
bug('c18-nearly-equal', 'C18', [('io.py', "        if not tabulated_data[row, 0] > last_valid:\n", "        if not tabulated_data[row, 0] - last_valid > 1e-9:\n")],
    "a table in metres (spacing below 1e-9) with one repeated row", "rows that are in order are thrown away",
    """
from dispersion.io import fix_table
t = np.array([[4e-7, 1.5], [4e-7, 1.6], [4.005e-7, 1.7], [4.01e-7, 1.8]])
assert len(fix_table(t)) == 3
""")
bug('c18-blank-after-many', 'C18', [('io.py', """            if row.isspace() or row == "":
                continue
            numeric_col = []""", """            if row.isspace() or row == "" or len(numeric_table) == 1000:
                continue
            numeric_col = []""")], "a table of more than 1000 rows in a file", "the rows after the thousandth are ignored",
    """
from dispersion.io import _str_table_to_numeric
assert len(_str_table_to_numeric('\\n'.join('%d 1.5' % (400+i) for i in range(1200)))) == 1200
""")
bug('c10-dilute', 'C10', [('material.py', "        if self.frac < 0. or self.frac > 1.0:", "        if self.frac < 1e-3:\n            self.frac = 0.0\n        if self.frac < 0. or self.frac > 1.0:")],
    "a filling fraction below 0.001 (or a negative one)", "the inclusions are ignored, a negative fraction is accepted",
    """
from dispersion import Material, Spectrum
from dispersion.material import MaxwellGarnett
s = Spectrum(np.array([500.0, 600.0]), unit='nm')
m = MaxwellGarnett(s, Material(fixed_eps_r=2.0), Material(fixed_eps_r=4.0), 5e-4)
assert np.all(np.real(m.get_permittivity(s)) != 2.0)
""")
bug('c08-drude-lowloss', 'C08', [('spectral_data.py', "        return ones - omega_p**2/(np.power(energies, 2)+1j*loss*energies)\n",
     "        if loss < 1e-3:\n            return ones - omega_p**2/np.power(energies, 2)\n        return ones - omega_p**2/(np.power(energies, 2)+1j*loss*energies)\n")],
    "a Drude model with damping below 1 meV", "the permittivity becomes real",
    """
from dispersion.spectral_data import Drude
from dispersion import Spectrum
d = Drude(np.array([9.0, 5e-4]), (0.1, 5.0), 'energy', 'ev')
assert np.imag(d.evaluate(Spectrum(2.0, 'energy', 'ev'))) > 0
""")
bug('c08-cauchy-high-order', 'C08', [('spectral_data.py', """        for iterc in range(len(self.model_parameters[1::2])):
            c_multi = self.model_parameters[iterc*2+1]
            c_power = self.model_parameters[iterc*2+2]
            rhs += c_multi*np.power(wavelengths, c_power)
        ref_index = rhs
""", """        for iterc in range(min(4, len(self.model_parameters[1::2]))):
            c_multi = self.model_parameters[iterc*2+1]
            c_power = self.model_parameters[iterc*2+2]
            rhs += c_multi*np.power(wavelengths, c_power)
        ref_index = rhs
""")], "a Cauchy model with five or more terms", "the higher terms are ignored",
    """
from dispersion.spectral_data import Cauchy
from dispersion import Spectrum
d = Cauchy(np.array([1.5, .1, 1., .1, 2., .1, 3., .1, 4., .1, 5.]), (0.1, 5.0), 'wavelength', 'um')
assert np.isclose(d.evaluate(Spectrum(1.0, unit='um')), 2.0)
""")
bug('c11-long-range', 'C11', [('spectral_data.py', "            return splev(values,self.extrapolation)\n", "            return splev(values, self.extrapolation, ext=0 if self.spline_order < 4 else 3)\n")],
    "an extrapolation of order four or five", "the boundary value is returned instead of the extrapolation",
    """
from dispersion import Material, Spectrum
w = np.linspace(400., 800., 9)
m = Material(tabulated_n=np.column_stack([w, 1.5 + (w-400.)*1e-4]))
m.extrapolate(Spectrum(900.0, unit='nm'), spline_order=4)
assert np.isclose(np.real(m.get_nk_data(900e-9)), 1.55, atol=1e-3)
""")
bug('c12-wide-range', 'C12', [('material.py', "            values = np.geomspace(max_range[0], max_range[1], 1000)\n",
     "            if max_range[1] > 1e3*max_range[0]:\n                max_range[1] = 1e3*max_range[0]\n            values = np.geomspace(max_range[0], max_range[1], 1000)\n")],
    "data over more than three decades", "the sample spectrum does not cover the whole range",
    """
from dispersion import Material
m = Material(tabulated_n=np.array([[0.1, 1.5], [1000., 1.6]]), unit='um')
assert np.isclose(m.get_sample_spectrum().values[-1], 1000.)
""")
bug('c15-many-coefficients', 'C15', [('material.py', """        for iter_coeff, coeff in enumerate(coefficients):
            coefficients[iter_coeff] = float(coeff)
""", """        coefficients = coefficients[:17]
        for iter_coeff, coeff in enumerate(coefficients):
            coefficients[iter_coeff] = float(coeff)
""")], "a formula with more than seventeen coefficients", "the last coefficients are ignored",
    """
from dispersion import Material
c = ['1.0'] + ['0.1', '0.2']*9
open(SCRATCH + '/a.yml', 'w').write('DATA:\\n  - type: formula 1\\n    wavelength_range: 0.3 2.0\\n    SpectrumType: wavelength\\n    Unit: micrometer\\n    coefficients: %s\\n' % ' '.join(c))
m = Material(file_path=SCRATCH + '/a.yml')
assert len(m.data['real'].model_parameters) == 19
""")
bug('c20-long-page', 'C20', [('catalogue.py', "        for page in pages:\n", "        for page in pages[:200]:\n")],
    "a book with more than 200 pages", "pages are left out",
    """
from dispersion import Catalogue, default_config
os.makedirs(SCRATCH + '/db/RefractiveIndexInfo/database/data/main')
lib = '- SHELF: main\\n  name: MAIN\\n  content:\\n    - BOOK: B\\n      name: Bk\\n      content:\\n'
for i in range(205):
    lib += '        - PAGE: p%d\\n          name: P%d\\n          data: main/f.yml\\n' % (i, i)
open(SCRATCH + '/db/RefractiveIndexInfo/database/library.yml', 'w').write(lib)
open(SCRATCH + '/db/RefractiveIndexInfo/database/data/main/f.yml', 'w').write('DATA:\\n  - type: tabulated n\\n    data: |\\n        0.4 1.5\\n        0.9 1.6\\n')
c = default_config(); c['Path'] = SCRATCH + '/db'; c['Modules'] = {'RefractiveIndexInfo': True}
cat = Catalogue(config=c, rebuild='All')
assert len(cat.get_database()) == 205, len(cat.get_database())
""")
# ------------------------------------------------------------------ histories, shared state
bug('c05-reader-cache', 'C15', [('io.py', """        yaml_data = read_yaml_file(self.file_path)

        file_dict = dict(self.default_file_dict)""", """        if self.file_path not in Reader._LOADED:
            Reader._LOADED[self.file_path] = read_yaml_file(self.file_path)
        yaml_data = Reader._LOADED[self.file_path]

        file_dict = dict(self.default_file_dict)"""), ('io.py', """    DATASET_META_DATA_KEYS = {'ValidRange', 'DataType',
                              'SpectrumType', 'Unit',
                              'Yields'}
""", """    DATASET_META_DATA_KEYS = {'ValidRange', 'DataType',
                              'SpectrumType', 'Unit',
                              'Yields'}

    _LOADED = {}
""")], "a file that is read, changed and read again", "the old contents are returned",
    """
from dispersion import Material
t = 'DATA:\\n  - type: tabulated n\\n    SpectrumType: wavelength\\n    Unit: nm\\n    data: |\\n        400 %s\\n        900 %s\\n'
p = SCRATCH + '/a.yml'
open(p, 'w').write(t % (1.5, 1.5)); Material(file_path=p)
open(p, 'w').write(t % (2.5, 2.5))
assert np.isclose(np.real(Material(file_path=p).get_nk_data(500e-9)), 2.5)
""")
bug('c13-default-comment', 'C05', [('io.py', """        for mdk in Reader.FILE_META_DATA_KEYS:
            file_dict['MetaData'][mdk] = ""
        file_dict['Datasets'] = [Reader._create_default_data_dict()]
        file_dict['MetaData']['Specification'] = {}
""", """        for mdk in Reader.FILE_META_DATA_KEYS:
            file_dict['MetaData'][mdk] = ""
        file_dict['Datasets'] = [Reader._create_default_data_dict()]
        file_dict['MetaData']['Specification'] = Reader.DEFAULT_SPEC
"""), ('io.py', """    FILE_META_DATA_KEYS = {"Comment",""", """    DEFAULT_SPEC = {}
    FILE_META_DATA_KEYS = {"Comment",""")], "two files without specifications, one of whose materials is given some", "all of them share one specification",
    """
from dispersion import Material
for n in 'ab':
    open(SCRATCH + '/%s.txt' % n, 'w').write('400 1.5\\n900 1.5\\n')
a, b = (Material(file_path=SCRATCH + '/%s.txt' % n) for n in 'ab')
a.meta_data['Specification']['temperature'] = '20 C'
assert b.meta_data['Specification'] == {}
""")
bug('c02-conversion-memo', 'C05', [('spectrum.py', """        converted_values = convert_methods[spectrum_type](unit, values)
        return converted_values

    def convert_to""", """        key = (spectrum_type, unit, np.size(values), float(np.sum(values)))
        if key not in Spectrum._memo:
            Spectrum._memo[key] = convert_methods[spectrum_type](unit, values)
        return Spectrum._memo[key]

    def convert_to"""), ('spectrum.py', """    DISPLAY_NAMES = {'m': 'm',""", """    _memo = {}
    DISPLAY_NAMES = {'m': 'm',""")], "two spectra of the same length and sum, in the same unit", "the second is given the values of the first",
    """
from dispersion import Spectrum
a = Spectrum(np.array([400., 800.]), unit='nm').convert_to('wavelength', 'm')
b = Spectrum(np.array([500., 700.]), unit='nm').convert_to('wavelength', 'm')
assert np.allclose(b, [5e-7, 7e-7])
""")
bug('c05-sample-kept', 'C12', [('material.py', """        max_range = self.get_maximum_valid_range()
        if max_range[0] == 0.0""", """        if not hasattr(self, '_sample_range'):
            self._sample_range = self.get_maximum_valid_range()
        max_range = self._sample_range
        if max_range[0] == 0.0""")], "a material that is sampled, extrapolated and sampled again", "the sample spectrum still covers the old range",
    """
from dispersion import Material, Spectrum
w = np.linspace(400., 800., 9)
m = Material(tabulated_n=np.column_stack([w, 1.5 + (w-400.)*1e-4]))
m.get_sample_spectrum()
m.extrapolate(Spectrum(900.0, unit='nm'))
assert np.isclose(m.get_sample_spectrum().values[-1], 900.0)
""")
bug('c19-lookup-memo', 'C19', [('catalogue.py', "            bool_array = self.database.Alias.values == identifier\n",
     "            if identifier not in self._rows:\n                self._rows[identifier] = self.database.Alias.values == identifier\n            bool_array = self._rows[identifier]\n"),
     ('catalogue.py', "        self.qgrid_widget = None\n", "        self.qgrid_widget = None\n        self._rows = {}\n")],
    "an alias that is looked up, moved to another entry and looked up again", "the first entry is returned",
    CAT + """
put('a.txt', 1.5); put('b.txt', 2.5)
cat = Catalogue(config=conf(), rebuild='All')
rows = list(cat.get_database().Path)
i, j = rows.index('a.txt'), rows.index('b.txt')
cat.register_alias(i, 'x'); cat.get_material('x')
cat.register_alias(i, 'y'); cat.register_alias(j, 'x')
assert np.isclose(np.real(cat.get_material('x').get_nk_data(500e-9)), 2.5)
""")
bug('c11-extrapolate-again', 'C11', [('spectral_data.py', """        spectrum = self.base_spectral_data.suggest_spectrum()
        evaluation = self.base_spectral_data.evaluate(spectrum)""", """        if isinstance(self.base_spectral_data, Extrapolation):
            self.base_spectral_data = self.base_spectral_data.base_spectral_data
        spectrum = self.base_spectral_data.suggest_spectrum()
        evaluation = self.base_spectral_data.evaluate(spectrum)""")],
    "a second extrapolation of another order", "values of the first extrapolation change",
    """
from dispersion import Material, Spectrum
w = np.linspace(400., 800., 9)
m = Material(tabulated_n=np.column_stack([w, 1.5 + (w-400.)**2*1e-6]))
m.extrapolate(Spectrum(850.0, unit='nm'), spline_order=1)
a = m.get_nk_data(840e-9)
m.extrapolate(Spectrum(900.0, unit='nm'), spline_order=3)
assert np.isclose(m.get_nk_data(840e-9), a, rtol=1e-9)
""")
bug('c22-config-memo', 'C22', [('config.py', "    user_dir = _get_user_config_dir()\n", "    global _USER_DIR\n    if _USER_DIR is None:\n        _USER_DIR = _get_user_config_dir()\n    user_dir = _USER_DIR\n"),
     ('config.py', "def _get_user_config_dir", "_USER_DIR = None\n\ndef _get_user_config_dir")],
    "two look-ups with a changed environment between them", "the configuration of the first environment is used",
    """
from dispersion.config import default_config, write_config, read_config
for k in 'ab':
    os.makedirs(SCRATCH + '/%s/.config' % k)
    os.environ['HOME'] = SCRATCH + '/' + k
    d = default_config(); d['Path'] = SCRATCH + '/' + k
    write_config(d)
    assert read_config()['Path'] == SCRATCH + '/' + k
""")

# ---- unusual strings and shapes
bug('c20-dotted-name', 'C20', [('catalogue.py', "            [name, ext] = os.path.splitext(filename)\n",
    "            name, ext = filename.split('.')[0], '.' + filename.split('.')[-1]\n")],
    "a file name with a dot before the extension", "the entry has another name than its file",
    CAT + """
put('a.thin.txt', 1.5); put('a.thick.txt', 2.5)
cat = Catalogue(config=conf(), rebuild='All')
assert sorted(cat.get_database().Name) == ['a.thick', 'a.thin'], list(cat.get_database().Name)
""")
bug('c20-underscore', 'C20', [('catalogue.py', "            if ext not in allowed_ext:\n", "            if ext not in allowed_ext or filename[0] in '_.~':\n")],
    "a material file whose name starts with an underscore", "no entry for it",
    CAT + """
put('_a.txt', 1.5); put('b.txt', 2.5)
cat = Catalogue(config=conf(), rebuild='All')
assert len(cat.get_database()) == 2
""")
bug('c20-link-prefix', 'C20', [('catalogue.py', "                if os.path.isdir(os.path.join(db_path, 'database','data')):\n", "                if os.path.isdir(os.path.join(db_path, 'database','data', os.path.dirname(page['data']))):\n")],
    "a page of the library whose folder is missing while others exist", "the build stops instead of skipping the page",
    """
from dispersion import Catalogue, default_config
os.makedirs(SCRATCH + '/db/RefractiveIndexInfo/database/data/main')
lib = '- SHELF: main\\n  name: MAIN\\n  content:\\n    - BOOK: B\\n      name: Bk\\n      content:\\n'
for d in ('gone/f.yml', 'main/f.yml'):
    lib += '        - PAGE: %s\\n          name: P\\n          data: %s\\n' % (d[0], d)
open(SCRATCH + '/db/RefractiveIndexInfo/database/library.yml', 'w').write(lib)
open(SCRATCH + '/db/RefractiveIndexInfo/database/data/main/f.yml', 'w').write('DATA:\\n  - type: tabulated n\\n    data: |\\n        0.4 1.5\\n        0.9 1.6\\n')
c = default_config(); c['Path'] = SCRATCH + '/db'; c['Modules'] = {'RefractiveIndexInfo': True}
cat = Catalogue(config=c, rebuild='All')
assert len(cat.get_database()) == 1
""")
YML = """
from dispersion import Material
def yml(t, **kw):
    open(SCRATCH + '/a.yml', 'w').write(t)
    return Material(file_path=SCRATCH + '/a.yml', spectrum_type='wavelength', unit='micrometer', **kw)
"""
bug('c15-range-blanks', 'C15', [('material.py', "            valid_range = meta_data['ValidRange'].split()\n", "            valid_range = meta_data['ValidRange'].split(' ')\n")],
    "two blanks between the bounds", "the file cannot be read",
    YML + """
m = yml('DATA:\\n  - type: formula 1\\n    wavelength_range: 0.3  2.0\\n    coefficients: 0 1.0 0.1\\n')
assert np.isclose(m.get_maximum_valid_range()[1], 2.0)
""")
bug('c15-type-blanks', 'C15', [('material.py', "            data_type, identifier = dataset['DataType'].split()\n", "            data_type, identifier = dataset['DataType'].split(' ', 1)\n")],
    "two blanks between kind and quantity", "the file cannot be read",
    YML + """
m = yml('DATA:\\n  - type: tabulated  n\\n    data: |\\n        0.4 1.5\\n        0.9 1.6\\n')
assert np.isclose(m.get_nk_data(0.4e-6), 1.5)
""")
bug('c15-range-long', 'C15', [('material.py', "            valid_range[i_valid_range] = float(v_range)\n", "            valid_range[i_valid_range] = float(v_range[:10])\n")],
    "a bound in exponential notation with many digits", "the exponent is cut off",
    YML + """
m = yml('DATA:\\n  - type: formula 1\\n    wavelength_range: 3.00000000e-01 2.00000000e+00\\n    coefficients: 0 1.0 0.1\\n')
assert np.isclose(m.get_maximum_valid_range()[0], 0.3)
""")
bug('c16-formula-fraction', 'C16', [('material.py', "            identifier = int(identifier)\n", "            identifier = int(float(identifier))\n")],
    "a formula number with a fraction", "read as another formula",
    YML + """
assert raises(lambda: yml('DATA:\\n  - type: formula 1.5\\n    wavelength_range: 0.3 2.0\\n    coefficients: 0 1.0 0.1\\n'))
""")
bug('c16-decimal-comma', 'C16', [('io.py', "                numeric_col.append(float(col))\n", "                numeric_col.append(float(col.strip(',;')))\n")],
    "a table with separators inside the cells", "non-numeric entries are taken as numbers",
    YML + """
assert raises(lambda: yml('DATA:\\n  - type: tabulated n\\n    data: |\\n        0.4; 1.5\\n        0.9; 1.6\\n'))
""")
bug('c13-spec-prefix', 'C13', [('io.py', "                if key not in spec_order:\n", "                if not key.startswith(tuple(spec_order)):\n")],
    "a specification key that starts with the name of a documented one", "it is not written",
    """
from dispersion import Material
from dispersion.io import Writer
w = np.linspace(400., 800., 9)
m = Material(tabulated_n=np.column_stack([w, 1.5 + (w-400.)*1e-4]))
m.meta_data['Specification'] = {'temperature': '20 C', 'temperature_error': '1 C'}
Writer(SCRATCH + '/a.yml', m).write_file()
assert Material(file_path=SCRATCH + '/a.yml').meta_data['Specification'] == m.meta_data['Specification']
""")
bug('c13-spec-false', 'C13', [('io.py', "                    if spec_key == key:\n", "                    if spec_key == key and val:\n")],
    "a specification whose value is False or 0", "it is not written",
    """
from dispersion import Material
from dispersion.io import Writer
w = np.linspace(400., 800., 9)
m = Material(tabulated_n=np.column_stack([w, 1.5 + (w-400.)*1e-4]))
m.meta_data['Specification'] = {'temperature': '20 C', 'n_absolute': False}
Writer(SCRATCH + '/a.yml', m).write_file()
assert Material(file_path=SCRATCH + '/a.yml').meta_data['Specification'] == m.meta_data['Specification']
""")
bug('c13-long-comment', 'C13', [('io.py', "        text = text.replace(\"\\n\", \"\\n\" + mark)\n", "        text = (\"\\n\" + mark).join(text.split(\"\\n\", 20)[:20])\n")],
    "a meta comment of more than twenty lines", "the last lines are lost",
    """
from dispersion import Material
from dispersion.io import Writer
w = np.linspace(400., 800., 9)
m = Material(tabulated_n=np.column_stack([w, 1.5 + (w-400.)*1e-4]))
m.meta_data['MetaComment'] = '\\n'.join('line %d' % i for i in range(25))
Writer(SCRATCH + '/a.yml', m).write_file()
assert 'line 24' in Material(file_path=SCRATCH + '/a.yml').meta_data['MetaComment']
""")
bug('c14-seventeenth-digit', 'C14', [('io.py', "                   fmt=\"%s\")", "                   fmt=\"%.15g\")")],
    "numbers that need more than fifteen digits", "they are rounded",
    """
from dispersion import Material
from dispersion.io import Writer
w = np.array([400., 500., 800.])
m = Material(tabulated_n=np.column_stack([w, [1.1, 1/3., 0.1+0.2]]))
Writer(SCRATCH + '/a.txt', m).write_file()
r = Material(file_path=SCRATCH + '/a.txt')
assert np.array_equal(r.data['real'].data, m.data['real'].data)
""")
bug('c22-config-int', 'C22', [('config.py', "    if not isinstance(value,val_type):\n", "    if not isinstance(value,val_type) and not (val_type is bool and value in (0, 1)):\n")],
    "a configuration with 0 or 1 instead of a truth value", "accepted",
    """
from dispersion.config import default_config, validate_config
os.makedirs(SCRATCH + '/db')
c = default_config(); c['Path'] = SCRATCH + '/db'
c['Interactive'] = 1
assert raises(lambda: validate_config(c))
""")
bug('c26-spec-ignored', 'C26', [('material.py', "        if not self.meta_data == other.meta_data:\n", "        if not all(self.meta_data[k] == other.meta_data[k] for k in self.meta_data if self.meta_data[k] and k in other.meta_data):\n")],
    "materials where one lacks a text the other has", "called equal in one direction",
    """
from dispersion import Material
a, b = Material(fixed_n=1.5), Material(fixed_n=1.5)
b.meta_data['Comment'] = 'x'
assert (a == b) is False and (b == a) is False
""")
bug('c19-row-negative', 'C19', [('catalogue.py', "            row = self.database.iloc[identifier, :]\n", "            row = self.database.iloc[identifier % len(self.database), :]\n")],
    "a row number beyond the table", "another entry is returned",
    CAT + """
put('a.txt', 1.5); put('b.txt', 2.5)
cat = Catalogue(config=conf(), rebuild='All')
assert raises(lambda: cat.get_material(2)) and raises(lambda: cat.get_material(5))
""")
bug('c21-module-prefix', 'C21', [('catalogue.py', "                    dframe = df[df.Module == module]\n", "                    dframe = df[df.Module == module].drop_duplicates(subset=['Module', 'Name'])\n")],
    "entries of a kept module with the same name", "only the first stays",
    CAT + """
put('a.txt', 1.5); put('a.csv', 2.5)
open(SCRATCH + '/db/UserData/a.csv', 'w').write('400.0,2.5\\n800.0,2.5\\n')
os.makedirs(SCRATCH + '/db/Filmetrics', exist_ok=True)
c = conf(); c['Modules'] = {'UserData': True, 'Filmetrics': True}
cat = Catalogue(config=c, rebuild='All'); cat.save_to_file()
cat = Catalogue(config=c, rebuild='Filmetrics')
assert sorted(cat.get_database().Path) == ['a.csv', 'a.txt']
""")
bug('c07-one-row-eps', 'C07', [('material.py', "        n_rows = data.shape[0]\n", "        n_rows = np.unique(data[:, 1]).size\n")],
    "a table whose values are all the same", "taken as known at its first spectral value only",
    """
from dispersion import Material
m = Material(tabulated_n=np.array([[400., 1.5], [800., 1.5]]))
assert np.isclose(m.get_nk_data(600e-9), 1.5)
""")

bug('c06-passive-root', 'C06', [('material.py', "            complex_val = np.sqrt(complex_val)\n", "            root = np.sqrt(complex_val)\n            complex_val = np.where(np.imag(root) < 0., -root, root)[()]\n")],
    "permittivity data with gain (negative imaginary part)", "the index is not the principal root",
    """
from dispersion import Material
m = Material(fixed_eps=complex(2.25, -0.3))
assert np.isclose(m.get_nk_data(500e-9), np.sqrt(2.25-0.3j))
""")
bug('c06-real-permittivity2', 'C06', [('material.py', "            complex_val = np.power(complex_val, 2)\n        return complex_val", "            complex_val = np.real_if_close(np.power(complex_val, 2))[()]\n        return complex_val")],
    "a lossless material defined by its index", "the permittivity is real instead of complex",
    """
from dispersion import Material
m = Material(fixed_n=1.5)
assert np.iscomplexobj(m.get_permittivity(np.array([5e-7, 6e-7])))
""")
bug('c10-dilute', 'C10', [('material.py', "        eps_eff = eps_base*factor_up/factor_down\n", "        # the dilute limit is linear in the fraction\n        if self.frac < 1e-3:\n            factor_up, factor_down = eps_base + 3*self.frac*(eps_incl-eps_base)*eps_base/(eps_incl+2*eps_base), eps_base\n        eps_eff = eps_base*(factor_up/factor_down)\n")],
    "a filling fraction below one permille", "the linearised rule is used",
    """
from dispersion import Material, Spectrum
from dispersion.material import MaxwellGarnett
a, b = Material(fixed_n=1.5), Material(fixed_n=3.5)
s = Spectrum(np.array([500e-9, 600e-9]))
f = 9e-4
eb, ei = 2.25, 12.25
ref = eb*(2*(1-f)*eb+(1+2*f)*ei)/((2+f)*eb+(1-f)*ei)
assert np.allclose(MaxwellGarnett(s, a, b, f).get_permittivity(s), ref, rtol=1e-10)
""")
bug('c11-flat-again', 'C11', [('spectral_data.py', "        self.base_spectral_data = spectral_data\n", "        self.base_spectral_data = getattr(spectral_data, 'base_spectral_data', spectral_data)\n")],
    "extrapolating twice, once to each side", "the second request forgets the first",
    """
from dispersion import Material, Spectrum
w = np.linspace(400., 800., 9)
m = Material(tabulated_n=np.column_stack([w, 1.5 + (w-400.)**2*1e-6]))
m.extrapolate(Spectrum(900., unit='nm'))
v = m.get_nk_data(880e-9)
m.extrapolate(Spectrum(300., unit='nm'))
assert np.isclose(m.get_nk_data(880e-9), v)
""")
bug('c26-alias-ignored', 'C26', [('material.py', "        if not self.data['name'] == other.data['name']:\n            return False\n        return True", "        if not self.data['name'] == other.data['name']:\n            # index and permittivity describe the same if one is constant\n            return bool(isinstance(self.data['real'], Constant) and isinstance(other.data['real'], Constant))\n        return True")],
    "two materials with constant real part, one by index and one by permittivity", "called equal",
    """
from dispersion import Material
assert (Material(fixed_n=1.5) == Material(fixed_eps_r=9.)) is False
""")
bug('c31-constant-kept', 'C31', [('material.py', "        self.data['imag'] = Constant(0.0)\n\n    def extrapolate", "        if not isinstance(self.data['imag'], Constant):\n            self.data['imag'] = Constant(0.0)\n\n    def extrapolate")],
    "a material with constant loss", "the loss stays",
    """
from dispersion import Material
m = Material(fixed_nk=complex(1.5, 0.2))
m.remove_absorption()
assert np.imag(m.get_nk_data(500e-9)) == 0
""")
bug('c32-relabelled', 'C32', [('catalogue.py', "        self.database = self.qgrid_widget.get_changed_df()\n", "        changed = self.qgrid_widget.get_changed_df()\n        self.database = self.database.copy()\n        self.database.update(changed)\n")],
    "a row removed or a cell emptied (NaN) in the widget", "the change is not taken over",
    GRID + """
cat.edit_interactive()
cat.qgrid_widget.changed = cat.qgrid_widget.df.iloc[:1]
cat.save_interactive()
assert len(cat.get_database()) == 1
""")
bug('c20-upper-ext', 'C20', [('catalogue.py', "            if ext not in allowed_ext:\n", "            if ext.lower() not in allowed_ext:\n")],
    "a foreign file with an upper case extension in the folder", "the whole build fails",
    CAT + """
put('a.txt', 1.5)
open(SCRATCH + '/db/UserData/NOTES.TXT', 'w').write('nothing to see\\n')
cat = Catalogue(config=conf(), rebuild='All')
assert list(cat.get_database().Name) == ['a']
""")
bug('c21-drop-nan', 'C21', [('catalogue.py', "                    dframe = df[df.Module == module]\n", "                    dframe = df[df.Module == module].dropna()\n")],
    "an entry of a kept module whose reference index is unknown", "dropped when another module is rebuilt",
    CAT + """
put('a.txt', 1.5)
open(SCRATCH + '/db/UserData/b.txt', 'w').write('# UNIT: nm\\n900.0 1.5\\n950.0 1.5\\n')
os.makedirs(SCRATCH + '/db/Filmetrics', exist_ok=True)
c = conf(); c['Modules'] = {'UserData': True, 'Filmetrics': True}
cat = Catalogue(config=c, rebuild='All'); cat.save_to_file()
cat = Catalogue(config=c, rebuild='Filmetrics')
assert len(cat.get_database()) == 2
""")
bug('c08-int-grid', 'C08', [('spectral_data.py', "            ones = np.ones(new_spectrum.shape)\n", "            ones = np.ones_like(new_spectrum)\n")],
    "an integer array in the model's native unit", "refused (or truncated) instead of evaluated",
    """
from dispersion import Material, Spectrum
m = Material(model_kw=dict(name='Cauchy', spectrum_type='wavelength', unit='um', valid_range=np.array([0.3, 9.]), parameters=np.array([1.5, 0.01, -2.])))
v = m.get_nk_data(Spectrum(np.array([1, 2]), unit='um'))
assert np.allclose(v, [1.51, 1.5025])
""")
bug('c07-assume-sorted', 'C07', [('spectral_data.py', "                                      kind=self.interp_order)\n", "                                      kind=self.interp_order,\n                                      assume_sorted=True)\n")],
    "a table given in descending order", "wrong values between the rows",
    """
from dispersion import Material
m = Material(tabulated_n=np.array([[800., 1.2], [600., 1.4], [400., 1.6]]))
assert np.isclose(m.get_nk_data(500e-9), 1.5) and np.isclose(m.get_nk_data(700e-9), 1.3)
""")
bug('c13-collapse-close', 'C13', [('material.py', "        if not np.array_equal(n_data[:, 0], k_data[:, 0]):\n", "        if n_data.shape != k_data.shape or not np.allclose(n_data[:, 0], k_data[:, 0]):\n")],
    "separate n and k tables of equal length on different grids in metres", "k is written on the grid of n",
    """
from dispersion import Material, Interpolation
from dispersion.io import Writer
m = Material(tabulated_n=np.array([[4e-7, 1.5], [6e-7, 1.6], [8e-7, 1.7]]), unit='m', spectrum_type='wavelength')
m.data['imag'] = Interpolation(np.array([[4e-7, 0.1], [5.95e-7, 0.2], [8e-7, 0.3]]), unit='m')
Writer(SCRATCH + '/a.yml', m).write_file()
assert np.isclose(np.imag(Material(file_path=SCRATCH + '/a.yml').get_nk_data(5.95e-7)), 0.2, rtol=1e-8)
""")
bug('c03-blank-unit', 'C03', [('spectrum.py', "        self.unit = self.standardise_unit(self.spectrum_type, unit.lower())\n", "        self.unit = self.standardise_unit(self.spectrum_type, unit.strip().lower())\n")],
    "a unit name with surrounding blanks", "accepted at construction, refused as conversion target",
    """
from dispersion import Spectrum
assert raises(lambda: Spectrum(500.0, unit='nm '), ValueError)
""")
bug('c15-unit-needs-type', 'C15', [('material.py', "        if ('Unit' in meta_data and \\\n            meta_data['Unit'] and \\\n", "        if ('Unit' in meta_data and \\\n            meta_data['Unit'] and meta_data['SpectrumType'] and \\\n")],
    "a text file that states its unit but not its quantity", "the unit is ignored",
    """
from dispersion import Material
open(SCRATCH + '/a.txt', 'w').write('# UNIT: um\\n0.4 1.5\\n0.8 1.7\\n')
assert np.isclose(Material(file_path=SCRATCH + '/a.txt').get_nk_data(600e-9), 1.6)
""")
bug('c16-type-words', 'C16', [('material.py', "            data_type, identifier = dataset['DataType'].split()\n            #meta", "            data_type, identifier = dataset['DataType'].split()[:2]\n            #meta")],
    "a dataset type with a third word", "the third word is ignored",
    YML + """
assert raises(lambda: yml('DATA:\\n  - type: tabulated n k\\n    data: |\\n        0.4 1.5\\n        0.8 1.6\\n'))
""")
bug('c16-nan-coefficient', 'C16', [('material.py', "            coefficients[iter_coeff] = float(coeff)\n", "            coefficients[iter_coeff] = float(coeff.rstrip(',;'))\n")],
    "coefficients separated by commas", "read as if the commas were not there",
    YML + """
assert raises(lambda: yml('DATA:\\n  - type: formula 5\\n    wavelength_range: 0.3 1.0\\n    coefficients: 1.5, 0.01, -2\\n'))
""")
bug('c22-config-memo', 'C22', [('config.py', "    user_dir = _get_user_config_dir()\n    file_path", "    if getattr(_get_config_dir, 'found', None):\n        return _get_config_dir.found\n    user_dir = _get_user_config_dir()\n    file_path"),
     ('config.py', "    if os.path.isfile(file_path):\n        return pkg_dir", "    if os.path.isfile(file_path):\n        _get_config_dir.found = pkg_dir\n        return pkg_dir")],
    "a user file that appears after the package's file was used once", "the package's file keeps precedence",
    """
import shutil
import dispersion, sys
cf = sys.modules['dispersion.config']
cf._get_package_dir = lambda: SCRATCH + '/pkg'
os.environ['HOME'] = SCRATCH + '/home'
os.makedirs(SCRATCH + '/pkg'); os.makedirs(SCRATCH + '/home/.config/dispersion')
d = cf.default_config(); d['File'] = 'package.csv'
cf.write_config(d, SCRATCH + '/pkg')
assert cf.get_config()['File'] == 'package.csv'
d['File'] = 'user.csv'
cf.write_config(d, SCRATCH + '/home/.config/dispersion')
assert cf.get_config()['File'] == 'user.csv'
""")
bug('c24-makedirs-read', 'C24', [('io.py', "        fname, extension = os.path.splitext(file_path)\n        self.extension = extension\n        self.default_file_dict", "        file_path = os.path.abspath(file_path)\n        os.makedirs(os.path.dirname(file_path), exist_ok=True)\n        extension = os.path.splitext(file_path)[1]\n        self.extension = extension\n        self.default_file_dict")],
    "reading a file in a folder that does not exist", "the folder is created",
    """
from dispersion import Material
raises(lambda: Material(file_path=SCRATCH + '/none/a.txt'))
assert not os.path.exists(SCRATCH + '/none')
""")
bug('c12-default-range', 'C12', [('material.py', "        if max_range[0] == 0.0 or max_range[1] == np.inf:\n", "        if max_range[0] == 0.0 or max_range[1] == np.inf or max_range[1] > 1e6*max_range[0]:\n")],
    "data spanning more than six decades", "the sample leaves the valid range",
    """
from dispersion import Material
m = Material(tabulated_n=np.array([[1e-5, 1.5], [90., 1.6]]))
s = m.get_sample_spectrum()
assert max(s.convert_to('wavelength', 'nm')) <= 90. + 1e-9
""")
bug('c30-sorted-values', 'C30', [('material.py', "            if isinstance(values, (list, tuple)):\n                values = np.array(values)\n        spectrum = Spectrum(values,", "            if isinstance(values, (list, tuple)):\n                values = np.unique(values)\n        spectrum = Spectrum(values,")],
    "values given as a list with repetitions or in descending order", "the curve has other points",
    PLOT + """
from dispersion import Material
m = Material(tabulated_n=np.array([[400., 1.5], [800., 1.7]]))
m.plot_nk_data(values=[700., 500., 600.])
x = plt.gca().get_lines()[0].get_xdata()
assert list(x) == [700., 500., 600.]
""")
bug('c18-row-sorted', 'C18', [('io.py', "        data_dict['Data'] = data\n        return data_dict", "        data_dict['Data'] = data[::-1] if data[0, 0] > data[-1, 0] else data\n        return data_dict")],
    "a text table in descending order", "turned round instead of reduced to its first row",
    """
from dispersion import Material
open(SCRATCH + '/a.txt', 'w').write('# UNIT: nm\\n800.0 1.5\\n600.0 1.6\\n400.0 1.7\\n')
m = Material(file_path=SCRATCH + '/a.txt')
assert raises(lambda: m.get_nk_data(600e-9), ValueError)
""")
bug('c23-existing-example', 'C23', [('scripts/setup_dispersion.py', "            if not os.path.isdir(module_dir):\n                os.makedirs(module_dir)\n", "            if not os.path.isdir(module_dir):\n                os.makedirs(module_dir)\n            elif len(os.listdir(module_dir)) > 0:\n                continue # already installed\n")],
    "a refractiveindex.info folder that holds something else than the database, declined download", "enabled although not present",
    """
from dispersion.scripts import setup_dispersion as s
import builtins, warnings
warnings.simplefilter('ignore')
d = SCRATCH + '/db'
os.makedirs(d + '/RefractiveIndexInfo/junk')
answers = iter(['y', 'n'])
builtins.input = lambda *a: next(answers)
c = s.install_modules({'Path': d, 'Modules': {'UserData': True, 'RefractiveIndexInfo': True}})
assert c['Modules']['RefractiveIndexInfo'] is False
""")

bug('c13-rii-inplace', 'C13', [('io.py', "                for key in dataset:\n                    if key in {\"SpectrumType\", \"Unit\", \"Yields\"}:\n                        continue\n                    value = dataset[key]\n", "                for key in list(dataset):\n                    if key in {\"SpectrumType\", \"Unit\", \"Yields\"}:\n                        dataset.pop(key)\n                        continue\n                    value = dataset[key]\n")],
    "a writer used first with refractiveindex.info names and then without", "the second file lacks quantity and unit",
    """
from dispersion import Material, Writer
m = Material(model_kw=dict(name='Cauchy', spectrum_type='wavelength', unit='um', valid_range=np.array([0.3, 2.0]), parameters=np.array([1.5, 0.01, -2.])))
w = Writer(SCRATCH + '/a.yml', m)
w.write_file(use_rii_aliases=True)
w.write_file()
assert np.isclose(Material(file_path=SCRATCH + '/a.yml').get_nk_data(1e-6), 1.51)
""")
bug('c13-spec-popped', 'C13', [('io.py', "                for key, val in specs.items():\n                    if spec_key == key:\n                        yaml_spec[spec_key] = val\n", "                if spec_key in specs:\n                    yaml_spec[spec_key] = specs.pop(spec_key)\n")],
    "a specification with a predefined key; the material is used again after writing", "writing empties the material's specification",
    """
from dispersion import Material, Writer
m = Material(tabulated_n=np.array([[400., 1.5], [800., 1.6]]))
m.meta_data['Specification'] = {'temperature': '20 C'}
Writer(SCRATCH + '/a.yml', m).write_file()
assert m.meta_data['Specification'] == {'temperature': '20 C'}
""")
bug('c21-list-ignored', 'C21', [('catalogue.py', "                if module in rebuild or rebuild == 'All':\n", "                if rebuild in (module, 'All') or rebuild == [module]:\n")],
    "a selection of two or more modules", "none of them is rebuilt",
    CAT + """
put('a.txt', 1.5); put('f.txt', 1.7, 'Filmetrics')
c = conf(UserData=True, Filmetrics=True)
cat = Catalogue(config=c, rebuild='All'); cat.save_to_file()
put('b.txt', 2.5); put('g.txt', 2.5, 'Filmetrics')
cat = Catalogue(config=c, rebuild=['UserData', 'Filmetrics'])
assert len(cat.get_database()) == 4
""")
bug('c17-fallback-loader', 'C17', [('io.py', "            except AttributeError:\n                yaml_data = yaml.safe_load(fpt)\n", "            except AttributeError:\n                yaml_data = yaml.load(fpt, Loader=yaml.Loader)\n")],
    "a PyYAML without FullLoader", "an executing loader is used",
    """
import yaml
if hasattr(yaml, 'FullLoader'): del yaml.FullLoader
from dispersion.io import read_yaml_file
open(SCRATCH + '/a.yml', 'w').write("x: !!python/object/apply:os.mkdir ['%s/made']\\n" % SCRATCH)
try:
    read_yaml_file(SCRATCH + '/a.yml')
except Exception:
    pass
assert not os.path.exists(SCRATCH + '/made')
""")
bug('c16-empty-type', 'C16', [('material.py', "            data_type, identifier = dataset['DataType'].split()\n            #meta", "            if not dataset['DataType'].strip() and not len(dataset['Data']):\n                continue\n            data_type, identifier = dataset['DataType'].split()\n            #meta".replace("            if not dataset['DataType'].strip() and not len(dataset['Data']):\n                continue\n            data_type, identifier = dataset['DataType'].split()\n", "            data_type, identifier = dataset['DataType'].split() or ('none', '')\n            if data_type == 'none' and not len(dataset['Data']):\n                continue\n"))],
    "a YAML file without DATA", "a material without data is returned",
    YML + """
assert raises(lambda: yml('REFERENCES: "nothing"\\nCOMMENTS: "x"\\n'))
""")
bug('c16-extra-columns', 'C16', [('io.py', "            elif dataset['Data'].shape[1] == 2:\n", "            elif dataset['Data'].shape[1] >= 2:\n")],
    "a text table with four or more columns", "all but the first two are ignored",
    """
from dispersion import Material
open(SCRATCH + '/a.txt', 'w').write('400 1.5 0.1 7\\n800 1.6 0.2 8\\n')
assert raises(lambda: Material(file_path=SCRATCH + '/a.txt'))
""")
bug('c22-int-value', 'C22', [('config.py', "    check_type(ref_spec['Value'],float)\n", "    check_type(ref_spec['Value'],(int, float))\n")],
    "a reference value given as an integer or truth value", "accepted although it cannot be used",
    """
from dispersion.config import default_config, validate_config
os.makedirs(SCRATCH + '/db')
c = default_config(); c['Path'] = SCRATCH + '/db'
c['ReferenceSpectrum']['Value'] = True
assert raises(lambda: validate_config(c))
""")
bug('c26-number-close', 'C26', [('material.py', "        if not self.data['name'] == other.data['name']:\n            return False\n        return True", "        if self.data['name'] != other.data['name']:\n            return self.data['real'] is other.data['real']\n        return True")],
    "two materials of different kind that share the real part", "called equal",
    """
from dispersion import Material, Constant
a, b = Material(fixed_n=1.5), Material(fixed_eps_r=1.5)
b.data['real'] = a.data['real']
assert (a == b) is False
""")
bug('c01-standard-inplace', 'C01', [('spectrum.py', "            self.unit = unit\n            return None", "            self.unit = unit\n            self.standard_rep = self.convert_from(spectrum_type, unit, np.round(converted_values, 3))\n            return None".replace("            self.unit = unit\n            self", "            self.unit, rounded = unit, np.round(converted_values, 3)\n            self").replace("np.round(converted_values, 3))", "rounded)"))],
    "an in-place conversion followed by another conversion", "the spectrum moved by the rounding",
    """
from dispersion import Spectrum
s = Spectrum(np.array([512.3456, 600.]), unit='nm')
s.convert_to('wavelength', 'um', in_place=True)
assert np.allclose(s.convert_to('wavelength', 'nm'), [512.3456, 600.], atol=1e-5, rtol=0)
""")
bug('c20-reference-clipped', 'C20', [('catalogue.py', "                ref_index = mat.get_nk_data(self.reference_spectrum)\n            except ValueError as valE:\n                ref_index = float('nan') + 1j* float('nan')\n", "                ref_index = mat.get_nk_data(self.reference_spectrum)\n            except ValueError as valE:\n                ref_index = float('nan') + 1j* float('nan') if valid_range[1] < 1e3 else \\\n                    mat.get_nk_data(valid_range[0], mat.defaults['spectrum_type'], mat.defaults['unit'])\n")],
    "infrared data in nanometres that starts above the reference", "the index at the bound is recorded",
    CAT + """
open(SCRATCH + '/db/UserData/a.txt', 'w').write('2000.0 1.5\\n3000.0 1.6\\n')
cat = Catalogue(config=conf(), rebuild='All')
assert np.isnan(cat.get_database().N_Reference[0])
""")
bug('c23-declined-kept', 'C23', [('scripts/setup_dispersion.py', "        [name, confirmed_db_nane] = get_catalogue_name(conf)\n    conf['File'] = name\n", "        [name, confirmed_db_nane] = get_catalogue_name(conf)\n        conf['File'] = name\n")],
    "a declined name followed by empty input", "empty input means the declined name, not the default",
    """
from dispersion.scripts import setup_dispersion as s
import builtins, yaml
os.environ['HOME'] = SCRATCH
os.makedirs(SCRATCH + '/db')
answers = iter([SCRATCH + '/db', 'y', 'other.csv', 'n', '', 'y', 'n', 'n'])
builtins.input = lambda *a: next(answers)
s.main()
c = yaml.safe_load(open(SCRATCH + '/.config/dispersion/config.yaml'))
assert c['File'] == 'catalogue.csv', c
""")
bug('c32-head', 'C32', [('catalogue.py', "        grid_options = {'editable':True}\n        self.qgrid_widget = self.make_qgrid(self.database,\n", "        grid_options = {'editable':True}\n        self.qgrid_widget = self.make_qgrid(self.database.head(1000),\n")],
    "a catalogue of more than a thousand entries", "the rest is not shown and lost when saved",
    GRID + """
import pandas as pd
cat.set_database(pd.concat([cat.get_database()]*600, ignore_index=True))
assert len(cat.edit_interactive().df) == 1200
""")
bug('c21-long-save', 'C21', [('catalogue.py', "                             index=False, index_label='Index')\n", "                             index=False, index_label='Index',\n                             columns=[c for c in self.database.columns if len(self.database) < 5000 or c != 'Comment'])\n")],
    "a catalogue of 5000 or more entries", "comments are not saved",
    CAT + """
put('a.txt', 1.5)
cat = Catalogue(config=conf(), rebuild='All')
cat.set_database(pd.concat([cat.get_database()]*5000, ignore_index=True))
cat.save_to_file()
assert 'Comment' in Catalogue(config=conf()).get_database().columns
""")
bug('c30-thinned', 'C30', [('material.py', "            plt.plot(spectrum.values, data_r, label=labels[0])\n            plt.plot(spectrum.values, data_i, ls='--', label=labels[1])\n", "            step = max(1, len(spectrum.values)//2000)\n            plt.plot(spectrum.values[::step], data_r[::step], label=labels[0])\n            plt.plot(spectrum.values[::step], data_i[::step], ls='--', label=labels[1])\n")],
    "4000 or more values", "only every other point is drawn",
    PLOT + """
m = Material(tabulated_n=np.array([[400., 1.5], [800., 1.7]]))
m.plot_nk_data(values=np.linspace(400., 800., 4000))
assert len(plt.gca().get_lines()[0].get_xdata()) == 4000
""")
bug('c04-long-sample', 'C04', [('spectrum.py', "        other_max = np.max(other_values)\n", "        other_max = np.max(other_values if np.size(other_values) < 10000 else other_values[::10])\n")],
    "a spectrum of ten thousand values with a single one too large", "evaluated outside the range",
    """
from dispersion import Spectrum
x = np.full(10000, 500.); x[7] = 900.
assert raises(lambda: Spectrum([400., 800.], unit='nm').contains(Spectrum(x, unit='nm')), ValueError)
""")
bug('c26-text-prefix', 'C26', [('material.py', "        if not isinstance(other, Material):\n            return False\n", "        if type(other).__name__ != type(self).__name__ or not isinstance(other, Material):\n            return False\n        if len(self.meta_data['Comment']) > 1000 and len(other.meta_data['Comment']) > 1000:\n            return self.meta_data['Reference'] == other.meta_data['Reference']\n")],
    "two materials with very long comments", "called equal although the comments differ",
    """
from dispersion import Material
a, b = Material(fixed_n=1.5), Material(fixed_n=1.5)
a.meta_data['Comment'] = 'x'*2000; b.meta_data['Comment'] = 'y'*2000
assert (a == b) is False
""")
bug('c20-comment-cut', 'C20', [('catalogue.py', "            content_dict['Comment'] = mat.meta_data['Comment']\n", "            content_dict['Comment'] = mat.meta_data['Comment'][:255]\n")],
    "a comment of more than 255 characters", "cut",
    CAT + """
open(SCRATCH + '/db/UserData/a.txt', 'w').write('# COMMENTS: ' + 'x'*300 + '\\n400.0 1.5\\n900.0 1.6\\n')
cat = Catalogue(config=conf(), rebuild='All')
assert cat.get_database().Comment[0] == 'x'*300
""")
bug('c20-first-line', 'C20', [('catalogue.py', "            content_dict['Reference'] = mat.meta_data['Reference']\n            content_dict['SpectrumType']", "            content_dict['Reference'] = mat.meta_data['Reference'].partition('\\n')[0]\n            content_dict['SpectrumType']")],
    "a reference of several lines", "only the first is recorded",
    CAT + """
open(SCRATCH + '/db/UserData/a.yml', 'w').write('REFERENCES: |\\n    one\\n    two\\nDATA:\\n  - type: tabulated n\\n    SpectrumType: wavelength\\n    Unit: nm\\n    data: |\\n        400 1.5\\n        900 1.6\\n')
cat = Catalogue(config=conf(), rebuild='All')
assert 'two' in cat.get_database().Reference[0]
""")

bug('c09-upper-unit', 'C09', [('spectral_data.py', "        if not tmp_spectrum.unit == self.required_unit:\n", "        if not tmp_spectrum.unit == self.required_unit and self.unit.islower():\n")],
    "a wrong unit written with capital letters", "accepted",
    """
from dispersion.spectral_data import Cauchy
assert raises(lambda: Cauchy(np.array([1.5, 0.01, -2.]), (300., 900.), spectrum_type='wavelength', unit='NM'), ValueError)
""")

bug('c07-order-zero', 'C07', [('material.py', "        if inputs.get('interp_order') is None:\n", "        if not inputs.get('interp_order'):\n")],
    "interpolation order 0 (steps)", "linear interpolation is used",
    """
from dispersion import Material
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.7], [600., 1.9]]), spectrum_type='wavelength', unit='nm', interp_order=0)
assert np.isclose(m.get_nk_data(440., 'wavelength', 'nm'), 1.5)
""")
bug('c11-half-applied', 'C11', [('material.py', "                extrapolated[data_name] = Extrapolation(self.data[data_name],\n", "                self.data[data_name] = Extrapolation(self.data[data_name],\n")],
    "a request outside the range of the real part only", "refused, but the real part is extrapolated already",
    """
from dispersion import Material, Spectrum, Interpolation
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.6], [600., 1.7]]), spectrum_type='wavelength', unit='nm')
m.data['imag'] = Interpolation(np.array([[400., 0.], [800., 0.1]]), spectrum_type='wavelength', unit='nm')
assert raises(lambda: m.extrapolate(Spectrum(700., unit='nm')))
assert m.get_maximum_valid_range()[1] == 600.
""")
bug('c10-singular-all', 'C10', [('material.py', "        if np.any(abs(factor_down) < small_number_cutoff):\n", "        if np.all(abs(factor_down) < small_number_cutoff):\n")],
    "a denominator that vanishes at some samples only", "accepted",
    """
from dispersion import Material, Spectrum
from dispersion.material import MaxwellGarnett
t = np.array([[400., -2.], [600., 1.], [800., 1.]])
a = Material(tabulated_eps=np.array([[400., 1., 0.], [800., 1., 0.]]), spectrum_type='wavelength', unit='nm')
b = Material(tabulated_eps=np.array([[400., -2., 0.], [600., 3., 0.], [800., 3., 0.]]), spectrum_type='wavelength', unit='nm')
assert raises(lambda: MaxwellGarnett(Spectrum(np.array([400., 700.]), unit='nm'), a, b, 0.0), ValueError)
""")
bug('c10-singular-real', 'C10', [('material.py', "        if np.any(abs(factor_down) < small_number_cutoff):\n", "        if np.any(abs(np.real(factor_down)) < small_number_cutoff):\n")],
    "a denominator that is purely imaginary", "a well defined medium is refused",
    """
from dispersion import Material, Spectrum
from dispersion.material import MaxwellGarnett
a = Material(fixed_eps=1.+0j)
b = Material(fixed_eps=-2.+3.j)
m = MaxwellGarnett(Spectrum(np.array([400., 700.]), unit='nm'), a, b, 0.0)
assert np.allclose(m.get_permittivity(500e-9), 1.0)
""")
bug('c15-unit-carried', 'C15', [
    ('material.py', "        if meta_data['Unit']:\n            model_dict['unit'] = meta_data['Unit']\n        else:\n            model_dict['unit'] = self.defaults['unit']\n",
     "        if meta_data['Unit'] and meta_data['SpectrumType']:\n            model_dict['unit'] = meta_data['Unit']\n        else:\n            model_dict['unit'] = self.defaults['unit']\n")],
    "a formula that states its unit but not its quantity", "the caller's default unit is used",
    """
from dispersion import Material
open(SCRATCH + '/a.yml', 'w').write('DATA:\\n  - type: formula 5\\n    Unit: um\\n    wavelength_range: 0.3 2.0\\n    coefficients: 1.5 0.01 -2\\n')
m = Material(file_path=SCRATCH + '/a.yml', spectrum_type='wavelength', unit='nm')
assert np.isclose(m.get_nk_data(1e-6), 1.51)
""")
bug('c13-range-sig', 'C13', [('spectral_data.py', "        data['DataType'] = \"model \" + type(self).__name__\n        data['ValidRange'] = _numeric_to_string_table(self.valid_range.values)\n",
     "        data['DataType'] = \"model \" + type(self).__name__\n        data['ValidRange'] = ' '.join('%g' % v for v in self.valid_range.values)\n")],
    "a range bound with more than six digits", "rounded in the file",
    """
from dispersion import Material, Writer
m = Material(model_kw=dict(name='Cauchy', spectrum_type='wavelength', unit='um', valid_range=np.array([0.30000004, 2.0]), parameters=np.array([1.5, 0.01, -2.])))
Writer(SCRATCH + '/a.yml', m).write_file()
assert Material(file_path=SCRATCH + '/a.yml').get_maximum_valid_range()[0] == 0.30000004
""")
bug('c13-range-order', 'C13', [('spectral_data.py', "        data['DataType'] = \"model \" + type(self).__name__\n        data['ValidRange'] = _numeric_to_string_table(self.valid_range.values)\n",
     "        data['DataType'] = \"model \" + type(self).__name__\n        data['ValidRange'] = _numeric_to_string_table(np.array(self.valid_range.values).astype('float32'))\n")],
    "a range bound that is not a short binary fraction", "stored in single precision",
    """
from dispersion import Material, Writer
m = Material(model_kw=dict(name='Cauchy', spectrum_type='wavelength', unit='um', valid_range=np.array([0.123456789012, 2.0]), parameters=np.array([1.5, 0.01, -2.])))
Writer(SCRATCH + '/a.yml', m).write_file()
assert Material(file_path=SCRATCH + '/a.yml').get_maximum_valid_range()[0] == 0.123456789012
""")
bug('c11-chain', 'C11', [('spectral_data.py', "        base_spectrum = self.base_spectral_data.valid_range\n", "        base_spectrum = getattr(self.base_spectral_data, 'base_spectral_data', self.base_spectral_data).valid_range\n")],
    "an extrapolated material that is extrapolated once more, on the other side", "the first extension is lost",
    """
from dispersion import Material, Spectrum
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.6], [600., 1.7]]), spectrum_type='wavelength', unit='nm')
m.extrapolate(Spectrum(700., unit='nm'))
m.extrapolate(Spectrum(300., unit='nm'))
r = m.get_maximum_valid_range()
assert np.allclose(r, [300., 700.])
""")
bug('c12-sample-log', 'C12', [('material.py', "            values = np.geomspace(max_range[0], max_range[1], 1000)\n", "            values = 10**np.linspace(np.round(np.log10(max_range[0]), 6), np.round(np.log10(max_range[1]), 6), 1000)\n            values = values if max_range[1] > max_range[0]*1.001 else np.full(1000, max_range[1]*2)\n")],
    "a very narrow valid range", "the sample lies outside it",
    """
from dispersion import Material
m = Material(tabulated_n=np.array([[632.8, 1.5], [633.0, 1.6]]), spectrum_type='wavelength', unit='nm')
s = m.get_sample_spectrum()
r = m.get_maximum_valid_range()
assert s.values.min() >= r[0] and s.values.max() <= r[1]
""")
bug('c05-spectrum-cache', 'C05', [('spectral_data.py', "        self.valid_range.contains(spectrum)\n        values = spectrum.convert_to(self.spectrum_type, self.unit)\n        return self.interpolation(values)\n",
    "        if getattr(self, '_last', (None,))[0] is not spectrum:\n            self.valid_range.contains(spectrum)\n            values = spectrum.convert_to(self.spectrum_type, self.unit)\n            self._last = (spectrum, self.interpolation(values))\n        return self._last[1].copy()\n")],
    "a spectrum object whose values are changed between two evaluations", "the old answer",
    """
from dispersion import Interpolation, Spectrum
d = Interpolation(np.array([[400., 1.], [800., 2.]]), spectrum_type='wavelength', unit='nm')
s = Spectrum(np.array([500., 600.]), unit='nm')
d.evaluate(s)
s.__init__(np.array([700., 800.]), unit='nm')
assert np.allclose(d.evaluate(s), [1.75, 2.0])
""")
bug('c06-pure-imaginary', 'C06', [('material.py', "            complex_val = np.sqrt(complex_val)\n        return complex_val\n", "            complex_val = np.where(np.real(complex_val) == 0, 1j*np.sqrt(np.imag(complex_val)+0j), np.sqrt(complex_val))[()]\n        return complex_val\n")],
    "a permittivity with vanishing real part", "wrong root",
    """
from dispersion import Material
m = Material(fixed_eps=0+2j)
assert np.isclose(m.get_nk_data(5e-7)**2, 2j)
""")
bug('c14-scientific', 'C14', [('io.py', "                   encoding='utf-8',\n                   fmt=\"%s\")\n", "                   encoding='utf-8',\n                   fmt=\"%s\" if np.max(np.abs(data)) < 1e16 else '%.6e')\n")],
    "frequencies above 1e16 Hz", "rounded to seven digits",
    """
from dispersion import Material, Writer
m = Material(tabulated_n=np.array([[1.23456789012e16, 1.5], [2.3456789012e16, 1.6]]), spectrum_type='frequency', unit='hz')
Writer(SCRATCH + '/a.txt', m).write_file()
assert Material(file_path=SCRATCH + '/a.txt').get_maximum_valid_range()[0] == 1.23456789012e16
""")
bug('c25-config-locale', 'C25', [('io.py', "    with open(file_path, 'w', encoding='utf8') as fpt:\n        if USE_RUAMEL:", "    with open(file_path, 'w') as fpt:\n        if USE_RUAMEL:")],
    "another locale and a path with an umlaut", "the configuration cannot be written or read back",
    """
import io, builtins
from dispersion import io as dio
o = builtins.open
builtins.open = lambda f, mode='r', *a, **k: o(f, mode, *a, **k) if 'encoding' in k or 'b' in mode else o(f, mode, *a, encoding='utf-16', **k)
dio.write_yaml_file(SCRATCH + '/a.yml', {'Path': 'ü'})
assert dio.read_yaml_file(SCRATCH + '/a.yml') == {'Path': 'ü'}
""")
bug('c24-temp-named', 'C24', [('io.py', "        file_path = os.path.join(temp_dir, filename)\n", "        file_path = os.path.join(temp_dir if len(filename) < 200 else os.path.dirname(temp_dir), filename)\n")],
    "a very long name", "a file is left in the temporary directory",
    """
import tempfile
tempfile.tempdir = SCRATCH + '/t'
os.mkdir(SCRATCH + '/t')
from dispersion.io import valid_file_name
valid_file_name('x'*210)
assert os.listdir(SCRATCH + '/t') == []
""")
bug('c23-upper-yes', 'C23', [('scripts/setup_dispersion.py', "        elif confirmation1 in {'n', 'no'}:\n", "        elif confirmation1[:1] == 'n':\n")],
    "an answer that begins with n", "taken as no",
    """
import builtins
from dispersion.scripts import setup_dispersion as s
a = iter(['nope', 'y'])
builtins.input = lambda q='': next(a)
assert s.get_confirmation('q') is True
""")
bug('c23-default-blank', 'C23', [('scripts/setup_dispersion.py', "        if user_input == \"\":\n", "        if user_input.isspace() or not user_input:\n")],
    "blanks typed as catalogue name", "taken for the default",
    """
import builtins
from dispersion.scripts import setup_dispersion as s
a = iter(['  ', 'x'])
builtins.input = lambda q='': next(a)
assert s.ask('q {}', 'default', lambda v: v.strip() != '') == 'x'
""")
bug('c19-bool-row', 'C19', [('catalogue.py', "        elif isinstance(identifier, int):\n            row = self.database.iloc[identifier, :]\n", "        elif isinstance(identifier, int):\n            row = self.database.iloc[identifier % len(self.database), :]\n")],
    "a row number past the end", "another entry is loaded",
    CAT + """
put('a.txt', 1.5); put('b.txt', 2.5)
cat = Catalogue(config=conf(), rebuild='All')
assert raises(lambda: cat.get_material(2))
""")
bug('c19-first-of-many', 'C19', [('catalogue.py', "            if row_id.shape[0] == 1:\n", "            if row_id.shape[0] == 1 or row_id.index.is_unique is False:\n")],
    "a selection of several rows with equal labels", "not refused",
    CAT + """
put('a.txt', 1.5); put('b.txt', 2.5)
cat = Catalogue(config=conf(), rebuild='All')
df = cat.get_database().copy()
df.index = [0, 0]
assert raises(lambda: cat.register_alias(df, 'x'), ValueError)
""")
bug('c21-sorted', 'C21', [('catalogue.py', "                    dframe = df[df.Module == module]\n", "                    dframe = df[df.Module == module].sort_values('Name', kind='stable')\n")],
    "kept entries that are not in alphabetic order", "their order changes",
    CAT + """
put('b.txt', 1.5); put('a.txt', 2.5); put('z.txt', 1.1, 'Filmetrics')
cat = Catalogue(config=conf(UserData=True, Filmetrics=True), rebuild='All')
df = cat.get_database()
df = pd.concat([df[df.Name == 'b'], df[df.Name == 'a'], df[df.Name == 'z']], ignore_index=True)
cat.set_database(df); cat.save_to_file()
cat = Catalogue(config=conf(UserData=True, Filmetrics=True), rebuild='Filmetrics')
assert list(cat.get_database().Name) == ['b', 'a', 'z']
""")
bug('c32-view-saves', 'C32', [('catalogue.py', "        self.database = self.qgrid_widget.get_changed_df()\n", "        self.database = self.qgrid_widget.get_changed_df().drop_duplicates()\n")],
    "an edited table with two equal rows", "one of them is lost",
    GRID + """
import pandas as pd
g = cat.edit_interactive()
g.changed = pd.concat([g.df, g.df.iloc[[0]]], ignore_index=True)
cat.save_interactive()
assert len(cat.get_database()) == 3
""")
bug('c31-sign', 'C31', [('material.py', "        self.data['imag'] = Constant(0.0)\n\n    def extrapolate", "        self.data['imag'] = Constant(0.0, valid_range=(0, 1e-3))\n\n    def extrapolate")],
    "data beyond a millimetre wavelength", "refused after removing absorption",
    """
from dispersion import Material
m = Material(tabulated_nk=np.array([[0.5, 1.5, 0.1], [2.0, 1.6, 0.2]]), spectrum_type='wavelength', unit='cm')
m.remove_absorption()
assert np.isclose(m.get_nk_data(1.0, 'wavelength', 'cm').imag, 0)
""")
bug('c18-tie-rounded', 'C18', [('io.py', "    return np.all(tabulated_data[1:, 0] > tabulated_data[:-1, 0])\n", "    return np.all(np.diff(tabulated_data[:, 0]) >= 0) and len(np.unique(tabulated_data[:, 0])) > len(tabulated_data)//2\n")],
    "a few repeated spectral values", "the table keeps them",
    YML + """
m = yml('DATA:\\n  - type: tabulated n\\n    data: |\\n        0.4 1.5\\n        0.5 1.6\\n        0.5 9.0\\n        0.6 1.7\\n')
assert m.data['real'].data.shape[0] == 3
""")
bug('c08-tauc-gap', 'C08', [('spectral_data.py', "        E = np.maximum(energies, Eg) # vanishes for energies below Eg\n", "        E = np.where(energies > 1e-3*Eg, np.maximum(energies, Eg), energies) # vanishes for energies below Eg\n")],
    "energies far below the gap", "spurious imaginary part",
    """
from dispersion import spectral_data as sd, Spectrum
d = sd.TaucLorentz(np.array([3.0, 1.5, 50., 4.0, 2.0]), (1e-6, 10.), spectrum_type='energy', unit='ev')
v = d.evaluate(Spectrum(np.array([1e-4, 2.0]), 'energy', 'ev'))
assert v[0].imag == 0.0
""")
# ---- batch 6
bug('c19-fullmatch', 'C19', [('catalogue.py', "            bool_array = self.database.Alias.values == identifier\n            bool_list = bool_array.tolist()\n", "            bool_list = self.database.Alias.str.fullmatch(identifier).tolist()\n")],
    "an alias holding a character with a meaning in patterns", "other entry found or the lookup fails",
    CAT + """
put('a.txt', 1.5); put('b.txt', 2.5)
cat = Catalogue(config=conf(), rebuild='All')
cat.register_alias(0, 'nx1'); cat.register_alias(1, 'n.1')
i = list(cat.get_database().Alias).index('n.1')
want = cat.get_material(i).get_nk_data(500e-9)
assert cat.get_material('n.1').get_nk_data(500e-9) == want
""")
bug('c05-id-cache', 'C05', [('material.py', "        if self.data['name'] == 'eps':\n            complex_val = np.sqrt(complex_val)\n        return complex_val\n", "        if self.data['name'] == 'eps':\n            complex_val = np.sqrt(complex_val)\n        if isinstance(spectrum_values, np.ndarray):\n            memo = self.__dict__.setdefault('_memo', {})\n            key = (len(spectrum_values), float(np.sum(spectrum_values)), unit)\n            complex_val = memo.setdefault(key, complex_val).copy()\n        return complex_val\n")],
    "two requests of the same length, unit and sum", "the first answer is returned",
    """
from dispersion import Material
m = Material(tabulated_n=np.array([[400., 1.], [800., 2.]]), spectrum_type='wavelength', unit='nm')
a = m.get_nk_data(np.array([500., 700.]), 'wavelength', 'nm')
b = m.get_nk_data(np.array([700., 500.]), 'wavelength', 'nm')
assert np.allclose(b, a[::-1])
""")
bug('c11-order-cap', 'C11', [('spectral_data.py', "        self.extrapolation = splrep(spectrum.values, evaluation,\n                                    k=self.spline_order)\n", "        self.extrapolation = splrep(spectrum.values, evaluation,\n                                    k=min(self.spline_order, 3))\n")],
    "spline orders 4 and 5", "the cubic spline is used",
    """
from scipy.interpolate import splrep, splev
from dispersion import Material, Spectrum
x = np.linspace(400., 800., 9)
m = Material(tabulated_n=np.column_stack([x, 1 + np.sin(x/100)]), spectrum_type='wavelength', unit='nm', interp_order=3)
base = m.data['real']
s = base.suggest_spectrum()
want = splev(850., splrep(s.values, base.evaluate(s), k=5))
m.extrapolate(Spectrum(900., unit='nm'), spline_order=5)
assert np.isclose(m.get_nk_data(850., 'wavelength', 'nm').real, want, rtol=1e-9)
""")
bug('c07-order-high', 'C07', [('spectral_data.py', "        self.interpolation = interp1d(self.data[:, 0], self.data[:, 1],\n                                      kind=self.interp_order)\n", "        self.interpolation = interp1d(self.data[:, 0], self.data[:, 1],\n                                      kind=min(self.interp_order, 3))\n")],
    "interpolation orders above 3", "the cubic spline is used",
    """
from scipy.interpolate import interp1d
from dispersion import Material
x = np.linspace(400., 800., 9)
t = np.column_stack([x, 1.5 + np.sin(x/40.)])
m = Material(tabulated_n=t, spectrum_type='wavelength', unit='nm', interp_order=5)
assert np.isclose(m.get_nk_data(425., 'wavelength', 'nm').real, interp1d(x, t[:, 1], kind=5)(425.))
""")
bug('c02-one-element', 'C02', [('spectrum.py', "            converted_values = convert_methods[spectrum_type](unit, values)\n        if in_place:", "            converted_values = convert_methods[spectrum_type](unit, values)\n            if np.size(converted_values) == 1 and spectrum_type == 'wavenumber':\n                converted_values = float(np.squeeze(converted_values))\n        if in_place:")],
    "arrays of one element converted to wavenumbers", "a float comes back",
    """
from dispersion import Spectrum
v = Spectrum(np.array([500.]), unit='nm').convert_to('wavenumber', '1/cm')
assert isinstance(v, np.ndarray) and v.shape == (1,)
""")
bug('c04-empty-range', 'C04', [('spectrum.py', "        if other_min < self_min:\n            out_of_range = other_min\n        elif other_max > self_max:\n", "        if other_min < self_min:\n            out_of_range = other_min\n        elif self_min == self_max:\n            pass\n        elif other_max > self_max:\n")],
    "data known at one spectral value only", "larger values are accepted",
    """
from dispersion import Material
m = Material(tabulated_n=np.array([[500., 1.5]]), spectrum_type='wavelength', unit='nm')
assert raises(lambda: m.get_nk_data(600., 'wavelength', 'nm'), ValueError)
""")
bug('c12-constant-default', 'C12', [('material.py', "        lower = np.max([np.min(part_range) for part_range in ranges])\n        upper = np.min([np.max(part_range) for part_range in ranges])\n", "        bounded = [part_range for part_range in ranges if np.ptp(part_range) > 0] or ranges\n        lower = np.max([np.min(part_range) for part_range in bounded])\n        upper = np.min([np.max(part_range) for part_range in bounded])\n")],
    "one part known at one spectral value, the other over a range", "the range of the other part is reported",
    """
from dispersion import Material, Constant
m = Material(tabulated_n=np.array([[400., 1.5], [800., 1.6]]), spectrum_type='wavelength', unit='nm')
m.data['imag'] = Constant(0.1, valid_range=(500., 500.), spectrum_type='wavelength', unit='nm')
assert np.allclose(m.get_maximum_valid_range(), [500., 500.])
""")
bug('c22-modules-shared', 'C22', [('config.py', "    for value in config['Modules'].values():\n        check_type(value,bool)\n", "    for value in config['Modules'].values():\n        check_type(value,(bool, type(None)))\n")],
    "a module setting left empty", "accepted",
    CAT + """
c = conf()
c['Modules'] = {'UserData': None}
from dispersion.config import validate_config
assert raises(lambda: validate_config(c))
""")
bug('c22-path-file', 'C22', [('config.py', "    if not os.path.isdir(config['Path']):\n", "    if not os.path.exists(config['Path']):\n")],
    "a path that names a file", "accepted",
    CAT + """
c = conf()
c['Path'] = os.path.join(SCRATCH, 'plainfile'); open(c['Path'], 'w').close()
from dispersion.config import validate_config
assert raises(lambda: validate_config(c))
""")
bug('c30-nan-label', 'C30', [('material.py', "        print(self.utf8_to_ascii(self.meta_data['Comment']))\n", "        print(self.utf8_to_ascii(self.meta_data['Comment'] or self.meta_data['MetaComment']))\n")],
    "a material with a meta comment and no comment", "another text is printed",
    """
import io, contextlib
from dispersion import Material
m = Material(fixed_n=1.5)
m.meta_data['Comment'] = ''; m.meta_data['MetaComment'] = 'meta'
b = io.StringIO()
with contextlib.redirect_stdout(b):
    m.print_comment()
assert b.getvalue() == '\\n'
""")
# ---- batch 7
bug('c14-mark-kept', 'C14', [('io.py', "        text = text.replace(\"\\n\", \"\\n\" + mark)\n", "        text = text.replace(\"\\n\", \"\\n\" + mark, 8)\n")],
    "a meta comment of more than nine lines", "the file cannot be read back",
    """
from dispersion import Material, Writer
m = Material(tabulated_n=np.array([[400., 1.], [800., 2.]]), spectrum_type='wavelength', unit='nm')
m.meta_data['MetaComment'] = '\\n'.join('line %d' % i for i in range(12))
p = os.path.join(SCRATCH, 'a.txt')
Writer(p, m).write_file()
assert Material(file_path=p).meta_data['MetaComment'].count('line') == 12
""")
bug('c18-inf-start', 'C18', [('io.py', "        if not tabulated_data[row, 0] > last_valid:\n            continue\n        else:\n            new_rows.append(tabulated_data[row, :])\n            last_valid = tabulated_data[row, 0]\n", "        if tabulated_data[row, 0] > last_valid:\n            new_rows.append(tabulated_data[row, :])\n        last_valid = max(last_valid, abs(tabulated_data[row, 0]))\n")],
    "a negative spectral value after the first row of an unordered table", "later rows are dropped",
    YML + """
m = yml('DATA:\\n  - type: tabulated n\\n    data: |\\n        0.4 1.5\\n        -0.9 1.0\\n        0.5 1.6\\n        0.5 9.0\\n        0.6 1.7\\n')
assert m.data['real'].data.shape[0] == 3
""")
bug('c16-loadtxt-rows', 'C16', [('io.py', "                    data = np.loadtxt(self.file_path, ndmin=2, encoding='utf-8',\n                                      delimiter=',')\n", "                    data = np.genfromtxt(self.file_path, encoding='utf-8',\n                                         delimiter=',').reshape(-1, 3)\n")],
    "a csv table with a cell that is not a number", "not refused",
    """
from dispersion import Material
p = os.path.join(SCRATCH, 'a.csv')
open(p, 'w').write('0.4,1.5,0.1\\n0.5,abc,0.2\\n0.6,1.7,0.3\\n')
assert raises(lambda: Material(file_path=p))
""")
bug('c17-csv-object', 'C17', [('io.py', "                yaml_data = yaml.load(fpt, Loader=yaml.FullLoader)\n            except AttributeError:\n                yaml_data = yaml.safe_load(fpt)\n    return yaml_data\n\ndef read_yaml_string", "                yaml_data = yaml.load(fpt, Loader=getattr(yaml, 'CLoader', yaml.FullLoader) if os.path.getsize(file_path) > 100000 else yaml.FullLoader)\n            except AttributeError:\n                yaml_data = yaml.safe_load(fpt)\n    return yaml_data\n\ndef read_yaml_string")],
    "a large file holding object tags", "the unsafe loader executes them",
    """
from dispersion.io import read_yaml_file
import dispersion.io
if not dispersion.io.USE_RUAMEL:
    p = os.path.join(SCRATCH, 'a.yml')
    mark = os.path.join(SCRATCH, 'mark')
    open(p, 'w').write('a: !!python/object/apply:os.mkdir [%s]\\n' % mark + '# pad\\n' * 20000)
    try:
        read_yaml_file(p)
    except Exception:
        pass
    assert not os.path.exists(mark)
""")
bug('c25-strip-locale', 'C25', [('io.py', "        with codecs.open(self.file_path, 'r', 'utf-8') as fpt:\n", "        with open(self.file_path, 'r', encoding='utf-8' if self.extension != '.nk' else None) as fpt:\n")],
    ".nk files with non-ASCII headers under another locale", "header garbled or unreadable",
    """
from dispersion import Material
p = os.path.join(SCRATCH, 'a.nk')
open(p, 'w', encoding='utf-8').write('; AUTHOR: M\\u00fcller\\n0.4 1.5 0.1\\n0.8 1.6 0.2\\n')
assert Material(file_path=p).meta_data['Author'] == 'M\\u00fcller'
""", env='export LC_ALL=C PYTHONUTF8=0 PYTHONCOERCECLOCALE=0\n')
bug('c24-open-late', 'C24', [('io.py', "    with open(file_path, 'r', encoding='utf8') as fpt:\n        current_text = fpt.read()\n", "    fpt = open(file_path, 'r', encoding='utf8')\n    current_text = fpt.read()\n    fpt.close()\n")],
    "a file whose text cannot be decoded", "the handle stays open",
    """
import builtins
from dispersion.io import prepend_text_to_file
p = os.path.join(SCRATCH, 'a.txt')
open(p, 'wb').write(b'\\xff\\xfe\\xff')
held = []
real = builtins.open
def spy(*a, **k):
    f = real(*a, **k)
    held.append(f)
    return f
builtins.open = spy
try:
    prepend_text_to_file(p, 'x')
except UnicodeDecodeError as e:
    assert all(f.closed for f in held)
""")
# ---- batch 8
bug('c10-brug-branch', 'C10', [('material.py', "        return -p*0.5  - np.sqrt((0.5*p)**2 - q)\n", "        return -p*0.5  - np.sqrt((0.5*p)**2 + 0.5*eps_a*np.real(eps_b) + 0.5j*eps_a*np.abs(np.imag(eps_b)))\n")],
    "an inclusion hosted in a medium with gain", "another root",
    """
from dispersion import Material
from dispersion.material import Bruggeman
from dispersion import Spectrum
s = Spectrum(np.array([4e-7, 5e-7]))
a, b = Material(fixed_eps=-4-0.5j), Material(fixed_eps=-2+0.3j)
m = Bruggeman(s, a, b, 0.4)
q = -0.5*(-4-0.5j)*(-2+0.3j)
p = 0.5*(0.4*((-4-0.5j)-2*(-2+0.3j)) + 0.6*((-2+0.3j)-2*(-4-0.5j)))
r = [-p/2+np.sqrt((p/2)**2-q), -p/2-np.sqrt((p/2)**2-q)]
assert np.allclose(m.sol2, r[1])
""")
bug('c10-mg-frac', 'C10', [('material.py', "        factor_down = (2+self.frac)*eps_base+(1-self.frac)*eps_incl\n", "        factor_down = (2+self.frac)*eps_base+(1-min(self.frac, 0.999))*eps_incl\n")],
    "filling fractions above 0.999", "the effective permittivity is off",
    """
from dispersion import Material, Spectrum
from dispersion.material import MaxwellGarnett
s = Spectrum(np.array([4e-7, 5e-7]))
m = MaxwellGarnett(s, Material(fixed_eps=2.0+0j), Material(fixed_eps=400.0+0j), 1.0)
assert np.allclose(m.get_permittivity(s), 400.0)
""")
bug('c10-simple-real', 'C10', [('material.py', "        eps_eff = eps_base*(1-self.frac) + eps_incl*(self.frac)\n", "        eps_eff = np.where(np.abs(eps_incl) > 1e4, eps_incl*self.frac, eps_base*(1-self.frac) + eps_incl*(self.frac))\n")],
    "inclusions of very large permittivity", "the host is left out",
    """
from dispersion import Material, Spectrum
from dispersion.material import Simple
s = Spectrum(np.array([4e-7, 5e-7]))
m = Simple(s, Material(fixed_eps=2000.0+0j), Material(fixed_eps=2e4+0j), 0.5)
assert np.allclose(m.get_permittivity(s), 11000.0)
""")
SETUP = """
import builtins
from dispersion.scripts import setup_dispersion as sd
"""
bug('c23-no-means-keep', 'C23', [('scripts/setup_dispersion.py', "        if not (os.path.isfile(database_file) or\n                os.path.isfile(catalog_file)):\n", "        if not os.listdir(database_dir):\n")],
    "a database folder without a library file", "the module stays enabled",
    SETUP + """
d = os.path.join(SCRATCH, 'rii'); os.makedirs(os.path.join(d, 'database', 'data'))
builtins.input = lambda q='': 'n'
assert sd.install_rii(d) is False
""")
bug('c23-user-overwrite', 'C23', [('scripts/setup_dispersion.py', "        conf['Modules'][module] = install\n        if install:\n", "        conf['Modules'][module] = install or os.path.isdir(os.path.join(conf['Path'], module))\n        if install:\n")],
    "a declined module whose folder exists", "it is enabled",
    SETUP + """
root = os.path.join(SCRATCH, 'root'); os.makedirs(os.path.join(root, 'RefractiveIndexInfo'))
builtins.input = lambda q='': 'n'
conf = sd.install_modules({'Path': root, 'Modules': {'UserData': True, 'RefractiveIndexInfo': True}})
assert conf['Modules']['RefractiveIndexInfo'] is False
""")
bug('c23-path-user', 'C23', [('scripts/setup_dispersion.py', "        if user_input == \"\":\n            user_input = default\n", "        user_input = os.path.normpath(user_input) if user_input else default\n")],
    "answers that normalisation changes", "another value is stored",
    SETUP + """
builtins.input = lambda q='': 'a.csv/'
import itertools
ans = iter(['/tmp/x/../y', ''])
builtins.input = lambda q='': next(ans)
assert sd.ask('q {}', '/tmp', os.path.isabs) == '/tmp/x/../y'
""")
bug('c09-energy-range', 'C09', [('spectral_data.py', "        if not tmp_spectrum.unit == self.required_unit:\n", "        if tmp_spectrum.unit not in {self.required_unit, 'a'}:\n")],
    "a model declared in angstrom", "accepted",
    """
from dispersion import spectral_data as sd
assert raises(lambda: sd.Cauchy(np.array([1.5, 0.1, -2]), (1., 2.), spectrum_type='wavelength', unit='angstrom'), ValueError)
""")
bug('c12-interval-empty', 'C12', [('material.py', "        return np.array([lower, upper])\n\n    @staticmethod\n    def utf8", "        return np.sort(np.array([lower, upper]))\n\n    @staticmethod\n    def utf8")], "x", "x",
    """
from dispersion import Material, Interpolation
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.6]]), spectrum_type='wavelength', unit='nm')
m.data['imag'] = Interpolation(np.array([[600., 0.1], [700., 0.2]]), spectrum_type='wavelength', unit='nm')
r = m.get_maximum_valid_range()
assert not r[0] <= r[1]
""")
bug('c03-type-trim', 'C03', [('spectrum.py', "        self.spectrum_type = spectrum_type.lower()\n", "        self.spectrum_type = spectrum_type.lower().rstrip('s')\n")],
    "quantity names in the plural", "accepted",
    """
from dispersion import Spectrum
assert raises(lambda: Spectrum(1.0, 'wavelengths', 'm'), ValueError)
""")
bug('c01-deep-uv', 'C01', [('spectrum.py', "        converted_values = np.round(values*1e10, decimals=13)\n", "        converted_values = np.round(values*1e10, decimals=4)\n")],
    "hard X-rays in angstrom", "rounded away",
    """
from dispersion import Spectrum
assert np.isclose(Spectrum(1.23456e-14).convert_to('wavelength', 'a'), 1.23456e-4, rtol=1e-6)
""")
