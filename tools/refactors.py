"""Edits that keep the behaviour, in many styles; every check has to stay quiet on each (tools/tryref.py)."""
REFS = []


def ref(id, *edits):
    REFS.append((id, edits))


S, D, M, I, C, F, P = ('spectrum.py', 'spectral_data.py', 'material.py', 'io.py', 'catalogue.py', 'config.py',
                       'scripts/setup_dispersion.py')

ref('s-inverse-where', (S, """    inverse = np.array(values, dtype=float)
    zero_ind = values == 0.0
    inf_ind = values == np.inf
    safe_inv_ind = ~ (zero_ind | inf_ind)
    inverse[zero_ind] = np.inf
    inverse[inf_ind] = 0.0
    inverse[safe_inv_ind] = 1.0/values[safe_inv_ind]
    return inverse
""", """    numeric = np.asarray(values, dtype=float)
    is_zero = numeric == 0.0
    is_inf = np.isposinf(numeric)
    regular = np.logical_not(np.logical_or(is_zero, is_inf))
    inverse = np.where(is_zero, np.inf, 0.0)
    np.divide(1.0, numeric, out=inverse, where=regular)
    return inverse
"""))
ref('s-inverse-errstate', (S, """    inverse = np.array(values, dtype=float)
    zero_ind = values == 0.0
    inf_ind = values == np.inf
    safe_inv_ind = ~ (zero_ind | inf_ind)
    inverse[zero_ind] = np.inf
    inverse[inf_ind] = 0.0
    inverse[safe_inv_ind] = 1.0/values[safe_inv_ind]
    return inverse
""", """    inverse = np.empty(values.shape, dtype=float)
    for index, value in np.ndenumerate(values):
        inverse[index] = safe_inverse_scalar(value)
    return inverse
"""))
ref('s-tables', (S, """    if unit == 'nm':
        converted_values = values*1e-9
    elif unit == 'cm':
       converted_values = values*1e-2
    elif unit == 'um':
        converted_values = values*1e-6
    elif unit =='a':
        converted_values = values*1e-10
    else:
        converted_values = values
    return converted_values
""", """    scale = _METRES_PER_UNIT.get(unit)
    return values if scale is None else scale*values

_METRES_PER_UNIT = {'nm': 1e-9, 'cm': 1e-2, 'um': 1e-6, 'a': 1e-10}
_FROM_METRES = {'cm': (1e2, 13), 'nm': (1e9, 12), 'um': (1e6, 9), 'a': (1e10, 13)}
"""), (S, """    if unit == 'm':
        converted_values = values
    elif unit == 'cm':
        converted_values = np.round(values*1e2, decimals=13)
    elif unit == 'nm':
        converted_values = np.round(values*1e9, decimals=12)
    elif unit == 'um':
        converted_values = np.round(values*1e6, decimals=9)
    elif unit == 'a':
        converted_values = np.round(values*1e10, decimals=13)
    return converted_values
""", """    if unit == 'm':
        return values
    factor, digits = _FROM_METRES[unit]
    return np.around(factor*values, digits)
"""))
ref('s-contains-bounds', (S, """        other_values = other.convert_to(self.spectrum_type, self.unit)
        other_min = np.min(other_values)
        other_max = np.max(other_values)
        self_min = np.min(self.values)
        self_max = np.max(self.values)
        out_of_range = None
        if other_min < self_min:
            out_of_range = other_min
        elif other_max > self_max:
            out_of_range = other_max
        elif np.isnan(other_max):
            out_of_range = other_max
        if out_of_range is not None:
""", """        requested = np.atleast_1d(other.convert_to(self.spectrum_type, self.unit))
        own = np.atleast_1d(self.values)
        self_min, self_max = own.min(), own.max()
        outside = [value for value in (requested.min(), requested.max())
                   if value < self_min or value > self_max or np.isnan(value)]
        if outside:
            out_of_range = outside[0]
"""))
ref('s-contains-helper', (S, """        other_values = other.convert_to(self.spectrum_type, self.unit)
        other_min = np.min(other_values)
        other_max = np.max(other_values)
        self_min = np.min(self.values)
        self_max = np.max(self.values)
""", """        other_min, other_max = self._extremes(
            other.convert_to(self.spectrum_type, self.unit))
        self_min, self_max = self._extremes(self.values)
"""), (S, """    @staticmethod
    def check_type(""", """    @staticmethod
    def _extremes(values):
        \"\"\"smallest and largest of the values\"\"\"
        if isinstance(values, float):
            return values, values
        return np.amin(values), np.amax(values)

    @staticmethod
    def check_type("""))
ref('s-property', (S, """        self.standard_rep = None  # values in standardised representation
        self.standardise_values(values)
""", """        self._standard = None
        self.standardise_values(values)

    @property
    def standard_rep(self):
        \"\"\"values in standardised representation\"\"\"
        return self._standard

    @standard_rep.setter
    def standard_rep(self, values):
        self._standard = values
"""))
ref('s-unit-lookup', (S, """        valid = False
        unit_type = ""
        for unit_type, aliases in Spectrum.UNIT_TYPES.items():
            if (unit in aliases and
                    unit_type in Spectrum.SPECTRUM_TYPES[spectrum_type]):
                valid = True
                break
        if valid is False:
            s_types = Spectrum.SPECTRUM_TYPES
            raise ValueError("unit [{}] invalid ".format(unit) +
                             "valid units for type {} ".format(spectrum_type) +
                             "are {}".format(s_types[spectrum_type]))
        return unit_type
""", """        candidates = Spectrum.SPECTRUM_TYPES[spectrum_type]
        matching = [name for name, aliases in Spectrum.UNIT_TYPES.items()
                    if name in candidates and unit in aliases]
        if not matching:
            raise ValueError(f"unit [{unit}] invalid valid units for type "
                             f"{spectrum_type} are {sorted(candidates)}")
        return matching[0]
"""))
ref('s-unit-next', (S, """        valid = False
        unit_type = ""
        for unit_type, aliases in Spectrum.UNIT_TYPES.items():
            if (unit in aliases and
                    unit_type in Spectrum.SPECTRUM_TYPES[spectrum_type]):
                valid = True
                break
        if valid is False:
            s_types = Spectrum.SPECTRUM_TYPES
""", """        unit_type = next((key for key in Spectrum.UNIT_TYPES
                          if unit in Spectrum.UNIT_TYPES[key]
                          and key in Spectrum.SPECTRUM_TYPES[spectrum_type]), None)
        if unit_type is None:
            s_types = Spectrum.SPECTRUM_TYPES
"""))
ref('s-constants', (S, """import scipy.constants as constants
""", """from scipy import constants

HC_IN_EV = constants.h*constants.c/constants.e
TWO_PI = 2*np.pi
"""), (S, """    converted_values = (constants.h*constants.c/(constants.e))*inverse
    return converted_values""", """    return HC_IN_EV*inverse"""), (S, "np.round((constants.h*constants.c/(constants.e))*inverse, decimals=9)",
                                                            "np.round(inverse*HC_IN_EV, 9)"),
    (S, "    return 2*np.pi*constants.c*inverse\n", "    return TWO_PI*(constants.speed_of_light*inverse)\n"))
ref('s-ctor-order', (S, """        self.unit = self.standardise_unit(self.spectrum_type, unit.lower())
        if isinstance(values, (list, tuple)):
            values = np.array(values)
        if not ( isinstance(values, np.ndarray) or
                 isinstance(values, float)):
            raise ValueError("values must be array like or float")
""", """        if isinstance(values, (list, tuple)):
            values = np.array(values)
        elif not isinstance(values, (np.ndarray, float)):
            raise ValueError("values must be array like or float")
        self.unit = self.standardise_unit(self.spectrum_type, unit.lower())
"""))

# ------------------------------------------------------------ spectral data
ref('d-sellmeier-zip', (D, """        rhs = self.model_parameters[0]*ones
        wvlsq = np.power(wavelengths, 2)
        for iterc in range(len(self.model_parameters[1::2])):
            cupper = self.model_parameters[iterc*2+1]
            clower = self.model_parameters[iterc*2+2]
            rhs += cupper*wvlsq/(wvlsq-clower**2)
        ref_index = np.sqrt(rhs+1.0)
        return ref_index
""", """        first, *rest = self.model_parameters
        wvlsq = wavelengths**2
        total = 1.0 + first*ones
        for cupper, clower in zip(rest[0::2], rest[1::2]):
            total = total + cupper*wvlsq/(wvlsq - clower*clower)
        return np.sqrt(total)
"""))
ref('d-sellmeier-sum', (D, """        rhs = self.model_parameters[0]*ones
        wvlsq = np.power(wavelengths, 2)
        for iterc in range(len(self.model_parameters[1::2])):
            cupper = self.model_parameters[iterc*2+1]
            clower = self.model_parameters[iterc*2+2]
            rhs += cupper*wvlsq/(wvlsq-clower**2)
        ref_index = np.sqrt(rhs+1.0)
        return ref_index
""", """        par = self.model_parameters
        squared = np.square(wavelengths)
        n_terms = (len(par) - 1)//2
        poles = sum(par[2*i + 1]*squared/(squared - par[2*i + 2]**2)
                    for i in range(n_terms))
        return (ones*(1.0 + par[0]) + poles)**0.5
"""))
ref('d-shared-ctor', *[(D, """        super(%s, self).__init__(model_parameters, valid_range,
%sspectrum_type=spectrum_type,
%sunit=unit)
        self.required_spectrum_type = 'wavelength'
        self.required_unit = 'um'
        self.output = 'n'
        self.validate_spectrum_type()
""" % (n, ' ' * k, ' ' * k), """        super(%s, self).__init__(model_parameters, valid_range,
                                 spectrum_type=spectrum_type, unit=unit)
        self._require('wavelength', 'um', 'n')
""" % n) for n, k in (('Sellmeier', 40), ('Sellmeier2', 41), ('Polynomial', 41), ('Cauchy', 37), ('Gases', 36), ('Retro', 36), ('Exotic', 37))],
    (D, """    def validate_spectrum_type(self):
""", """    def _require(self, spectrum_type, unit, output):
        \"\"\"declare the native quantity and unit and what the model yields\"\"\"
        self.required_spectrum_type = spectrum_type
        self.required_unit = unit
        self.output = output
        self.validate_spectrum_type()

    def validate_spectrum_type(self):
"""))
ref('d-polynomial-loop', (D, """        rhs = self.model_parameters[0]*ones

        for iterc in range(len(self.model_parameters[1::2])):
            c_multi = self.model_parameters[iterc*2+1]
            c_power = self.model_parameters[iterc*2+2]
            rhs += c_multi*np.power(wavelengths, c_power)
        ref_index = np.sqrt(rhs)
        return ref_index
""", """        return np.sqrt(self._power_series(ones, wavelengths))

    def _power_series(self, ones, wavelengths):
        total = ones*self.model_parameters[0]
        index = 1
        while index < len(self.model_parameters):
            total += (self.model_parameters[index] *
                      wavelengths**self.model_parameters[index+1])
            index += 2
        return total
"""))
ref('d-rii-slices', (D, """        for iterc in range(len(self.model_parameters[1:8:4])):
            c_multi_upper = self.model_parameters[iterc*4+1]
            c_power_upper = self.model_parameters[iterc*4+2]
            c_multi_lower = self.model_parameters[iterc*4+3]
            c_power_lower = self.model_parameters[iterc*4+4]
            rhs += (c_multi_upper*np.power(wavelengths, c_power_upper)/
                    (wvlsq-np.power(c_multi_lower, c_power_lower)))
        for iterc in range(len(self.model_parameters[9::2])):
            c_multi = self.model_parameters[iterc*2+9]
            c_power = self.model_parameters[iterc*2+10]
            rhs += c_multi*np.power(wavelengths, c_power)
""", """        for start in range(1, min(len(self.model_parameters), 9), 4):
            up, up_pow, low, low_pow = self.model_parameters[start:start+4]
            rhs += up*np.power(wavelengths, up_pow)/(wvlsq - np.power(low, low_pow))
        for start in range(9, len(self.model_parameters), 2):
            multi, power = self.model_parameters[start:start+2]
            rhs += multi*np.power(wavelengths, power)
"""))
ref('d-herzberger', (D, """        rhs = self.model_parameters[0]*ones
        wvlsq = np.power(wavelengths, 2)
        rhs += self.model_parameters[1]*np.power(wvlsq-0.028, -1)
        rhs += self.model_parameters[2]*np.power(wvlsq-0.028, -2)
        rhs += self.model_parameters[3]*wvlsq
        rhs += self.model_parameters[4]*np.power(wavelengths, 4)
        rhs += self.model_parameters[5]*np.power(wavelengths, 6)

        ref_index = rhs
        return ref_index
""", """        c = self.model_parameters
        wvlsq = wavelengths*wavelengths
        lead = 1.0/(wvlsq - 0.028)
        return (c[0]*ones + c[1]*lead + c[2]*lead**2 +
                wvlsq*(c[3] + wvlsq*(c[4] + wvlsq*c[5])))
"""))
ref('d-drude', (D, """        return ones - omega_p**2/(np.power(energies, 2)+1j*loss*energies)
""", """        denominator = energies*(energies + 1j*loss)
        return ones - np.square(omega_p)/denominator
"""), (D, """        return ones +  np.conj(pol_str*omega_p**2/((w_res**2-np.power(energies, 2))+1j*loss*energies))
""", """        detuning = w_res**2 - energies**2
        return ones + pol_str*omega_p**2/(detuning - 1j*loss*energies)
"""))
ref('d-tauc', (D, """        E = np.maximum(energies, Eg) # vanishes for energies below Eg
        eps_imag = ones*( (1./E) *A*E0*C*(E-Eg)**2 /
                          ((E**2-E0**2)**2+C**2*E**2))
        return eps_imag
""", """        gap = np.where(energies > Eg, energies - Eg, 0.0)
        numerator = A*E0*C*gap**2
        denominator = energies*((energies**2-E0**2)**2+(C*energies)**2)
        return ones*(numerator/denominator)
"""))
ref('d-interp-lazy', (D, """        self.interpolation = interp1d(self.data[:, 0], self.data[:, 1],
                                      kind=self.interp_order)
""", """        abscissae, ordinates = self.data[:, 0], self.data[:, 1]
        self.interpolation = interp1d(x=abscissae, y=ordinates,
                                      kind=self.interp_order)
"""), (D, """        self.valid_range.contains(spectrum)
        values = spectrum.convert_to(self.spectrum_type, self.unit)
        return self.interpolation(values)
""", """        return self.interpolation(self._checked_values(spectrum))

    def _checked_values(self, spectrum):
        self.valid_range.contains(spectrum)
        return spectrum.convert_to(spectrum_type=self.spectrum_type, unit=self.unit)
"""))
ref('d-constant-full', (D, """            return self.constant * np.ones(len(spectrum.values))
        return self.constant
""", """            return np.full(len(spectrum.values), self.constant)
        return self.constant
"""))
ref('d-extrap', (D, """        try:
            self.base_spectral_data.valid_range.contains(spectrum)
            return self.base_spectral_data.evaluate(spectrum)
        except ValueError as e:
            self.valid_range.contains(spectrum)
            values = spectrum.convert_to(self.spectrum_type, self.unit)
            return splev(values,self.extrapolation)
""", """        if self._inside_base_range(spectrum):
            return self.base_spectral_data.evaluate(spectrum)
        self.valid_range.contains(spectrum)
        return splev(spectrum.convert_to(self.spectrum_type, self.unit),
                     self.extrapolation)

    def _inside_base_range(self, spectrum):
        \"\"\"whether the base data is defined for all of the spectrum\"\"\"
        try:
            return self.base_spectral_data.valid_range.contains(spectrum)
        except ValueError:
            return False
"""), (D, """            if extrap_values.size > 2:
                raise ValueError("extrapolation spectrum may contain at most" +
                                 "2 values not {}".format(extrap_values.size))
            for extrap_val in extrap_values:
                new_range = self.validate_extrap_val(extrap_val, new_range)
        else:
            # upper or lower
            extrap_val = extrap_values
            new_range = self.validate_extrap_val(extrap_val, new_range)
""", """            wanted = list(extrap_values)
        else:
            wanted = [extrap_values]
        if len(wanted) > 2:
            raise ValueError("extrapolation spectrum may contain at most" +
                             "2 values not {}".format(len(wanted)))
        for extrap_val in wanted:
            new_range = self.validate_extrap_val(extrap_val, new_range)
"""))
ref('d-preprocess', (D, """        if isinstance(spectrum.values, (list, tuple, np.ndarray)):
            ones = np.ones(new_spectrum.shape)
        else:
            ones = 1.0

        return ones, new_spectrum
""", """        ones = 1.0
        if not isinstance(spectrum.values, float):
            ones = np.ones_like(new_spectrum, dtype=float)
        return (ones, new_spectrum)
"""))
ref('d-dict-repr', (D, """        data = {}
        data['DataType'] = "tabulated"
        data['ValidRange'] = _numeric_to_string_table(self.valid_range.values)
        data['SpectrumType'] = self.spectrum_type
        data['Unit'] = self.unit
        data['Data'] = _numeric_to_string_table(self.data)
        return data
""", """        data = self._common_repr("tabulated")
        data['Data'] = _numeric_to_string_table(self.data)
        return data
"""), (D, """        data = {}
        data['DataType'] = "model " + type(self).__name__
        data['ValidRange'] = _numeric_to_string_table(self.valid_range.values)
        data['SpectrumType'] = self.spectrum_type
        data['Unit'] = self.unit
        data['Yields'] = self.output
""", """        data = self._common_repr("model {}".format(self.__class__.__name__))
        data['Yields'] = self.output
"""), (D, """    def evaluate(self, spectrum):
        \"\"\"returns the value of the spectral data for the given spectrum\"\"\"
        raise NotImplementedError("This method should be overridden by"+
                                  " a subclass")
""", """    def _common_repr(self, data_type):
        \"\"\"the entries that every kind of data has\"\"\"
        return {'DataType': data_type,
                'ValidRange': _numeric_to_string_table(self.valid_range.values),
                'SpectrumType': self.spectrum_type,
                'Unit': self.unit}

    def evaluate(self, spectrum):
        \"\"\"returns the value of the spectral data for the given spectrum\"\"\"
        raise NotImplementedError("This method should be overridden by"+
                                  " a subclass")
"""))

# ----------------------------------------------------------------- material
ref('m-shared-eval', (M, """        if isinstance(spectrum, Spectrum):
            spectrum_values = spectrum.values
            spectrum_type = spectrum.spectrum_type
            unit = spectrum.unit
        else:
            spectrum_values = spectrum

        spectrum = Spectrum(spectrum_values,
                            spectrum_type=spectrum_type,
                            unit=unit)
        valid_data_names = ['nk', 'eps']
        if not (self.data['name'] in valid_data_names):
            raise ValueError("data type {}".format(self.data['name']) +
                             "cannot be converted to refractive index")
        if self.data['complex'] is None:
            real = self.data['real'].evaluate(spectrum)
            imag = 1j*self.data['imag'].evaluate(spectrum)
            complex_val = real+imag
        else:
            complex_val = self.data['complex'].evaluate(spectrum)

        if self.data['name'] == 'eps':
            complex_val = np.sqrt(complex_val)
        return complex_val
""", """        complex_val = self._evaluate_complex(spectrum, spectrum_type, unit)
        return np.sqrt(complex_val) if self.data['name'] == 'eps' else complex_val

    def _evaluate_complex(self, spectrum, spectrum_type, unit):
        \"\"\"the complex data as it is stored (index or permittivity)\"\"\"
        if not isinstance(spectrum, Spectrum):
            spectrum = Spectrum(spectrum, spectrum_type=spectrum_type, unit=unit)
        name = self.data['name']
        if name not in ('nk', 'eps'):
            raise ValueError("data type {}".format(name) +
                             "cannot be converted to refractive index")
        if self.data['complex'] is not None:
            return self.data['complex'].evaluate(spectrum)
        parts = [self.data[part].evaluate(spectrum) for part in ('real', 'imag')]
        return parts[0] + 1j*parts[1]
"""), (M, """
        if isinstance(spectrum_values, Spectrum):
            spectrum = spectrum_values
        else:
            spectrum = Spectrum(spectrum_values,
                                spectrum_type=spectrum_type,
                                unit=unit)

        if not (self.data['name'] == 'nk' or self.data['name'] == 'eps'):
            raise ValueError("data type {}".format(self.data['name']) +
                             "cannot be converted to refractive index")

        if self.data['complex'] is None:
            real = self.data['real'].evaluate(spectrum)
            imag = 1j*self.data['imag'].evaluate(spectrum)
            complex_val = real+imag
        else:
            complex_val = self.data['complex'].evaluate(spectrum)

        if self.data['name'] == 'nk':
            complex_val = np.power(complex_val, 2)
        return complex_val
""", """        complex_val = self._evaluate_complex(spectrum_values, spectrum_type, unit)
        if self.data['name'] == 'nk':
            return complex_val**2
        return complex_val
"""))
ref('m-fixed-table', (M, """        if inputs['fixed_n'] is not None:
            self.data['name'] = 'nk'
            self.data['real'] = Constant(inputs['fixed_n'])
            #self._k = Constant(0.0)
        elif inputs['fixed_nk'] is not None:
            self.data['name'] = 'nk'
            self.data['real'] = Constant(np.real(inputs['fixed_nk']))
            self.data['imag'] = Constant(np.imag(inputs['fixed_nk']))
        elif inputs['fixed_eps_r'] is not None:
            self.data['name'] = 'eps'
            self.data['real'] = Constant(inputs['fixed_eps_r'])
            #self._epsi = Constant(0.0)
        elif inputs['fixed_eps'] is not None:
            self.data['name'] = 'eps'
            self.data['real'] = Constant(np.real(inputs['fixed_eps']))
            self.data['imag'] = Constant(np.imag(inputs['fixed_eps']))
        else:
            raise RuntimeError("Failed to set a constant value for n,k or eps")
""", """        for key, name in (('fixed_n', 'nk'), ('fixed_nk', 'nk'),
                          ('fixed_eps_r', 'eps'), ('fixed_eps', 'eps')):
            value = inputs[key]
            if value is None:
                continue
            self.data['name'] = name
            if isinstance(value, complex):
                self.data['real'] = Constant(value.real)
                self.data['imag'] = Constant(value.imag)
            else:
                self.data['real'] = Constant(value)
            return
        raise RuntimeError("Failed to set a constant value for n,k or eps")
"""))
ref('m-source-dispatch', (M, """        elif parsed_args['model_kw'] is not None:
            self._process_model_dict(parsed_args['model_kw'])
        elif parsed_args['tabulated_nk'] is not None:
            self._process_table(parsed_args['tabulated_nk'], 'nk')
        elif parsed_args['tabulated_n_alpha'] is not None:
            self._process_table(parsed_args['tabulated_n_alpha'], 'n_alpha')
        elif parsed_args['tabulated_n'] is not None:
            self._process_table(parsed_args['tabulated_n'], 'n')
        elif parsed_args['tabulated_eps'] is not None:
            self._process_table(parsed_args['tabulated_eps'], 'eps')
        else:
            self._process_fixed_value(parsed_args)
""", """        elif parsed_args['model_kw'] is not None:
            self._process_model_dict(parsed_args['model_kw'])
        else:
            for kind in ('nk', 'n_alpha', 'n', 'eps'):
                table = parsed_args['tabulated_' + kind]
                if table is not None:
                    self._process_table(table, kind)
                    break
            else:
                self._process_fixed_value(parsed_args)
"""))
ref('m-parse-args', (M, """        inputs = {}
        n_mutually_exclusive = 0
        for arg in args.keys():
            if arg in args and args[arg] is not None:
                if arg in mutually_exclusive:
                    n_mutually_exclusive += 1
            inputs[arg] = args[arg]
""", """        inputs = dict(args)
        n_mutually_exclusive = sum(1 for arg in mutually_exclusive
                                   if inputs.get(arg) is not None)
"""), (M, """        if inputs['tabulated_nk'] is not None:
            _check_table_shape(inputs['tabulated_nk'], 3, 'nk')
        if inputs['tabulated_n_alpha'] is not None:
            _check_table_shape(inputs['tabulated_n_alpha'], 3, 'n_alpha')
        if inputs['tabulated_n'] is not None:
            _check_table_shape(inputs['tabulated_n'], 2, 'n')
        if inputs['tabulated_eps'] is not None:
            _check_table_shape(inputs['tabulated_eps'], 3, 'eps')
""", """        n_columns = {'nk': 3, 'n_alpha': 3, 'n': 2, 'eps': 3}
        for kind, ncols in n_columns.items():
            table = inputs['tabulated_{}'.format(kind)]
            if table is not None:
                _check_table_shape(table, ncols, kind)
"""), (M, """                invalid_type = False
                for _type in types:
                    if isinstance(args[arg], _type):
                        invalid_type = True
                if invalid_type is False:
""", """                if not isinstance(args[arg], tuple(types)):
"""))
ref('m-process-table', (M, """        if identifier == 'nk':
            self.data['name'] = 'nk'
            self.data['real'] = self._spec_data_from_table(table[:, [0, 1]])
            self.data['imag'] = self._spec_data_from_table(table[:, [0, 2]])
        elif identifier == 'n_alpha':
""", """        if identifier in ('nk', 'eps'):
            self.data['name'] = identifier
            for part, column in (('real', 1), ('imag', 2)):
                self.data[part] = self._spec_data_from_table(table[:, [0, column]])
        elif identifier == 'n_alpha':
"""), (M, """        elif identifier == 'eps':
            self.data['name'] = 'eps'
            self.data['real'] = self._spec_data_from_table(table[:, [0, 1]])
            self.data['imag'] = self._spec_data_from_table(table[:, [0, 2]])
        elif identifier == 'eps_r':
""", """        elif identifier == 'eps_r':
"""), (M, """            k = alpha*wvls/(np.pi*4.)
            new_table = np.vstack([table[:, 0], k]).T
""", """            k = wvls*alpha/(4.*np.pi)
            new_table = np.column_stack((table[:, 0], k))
"""), (M, """        if ('SpectrumType' in meta_data and \\
            meta_data['SpectrumType'] and \\
            meta_data['SpectrumType'] is not None):
            self.defaults['spectrum_type'] = meta_data['SpectrumType']
        if ('Unit' in meta_data and \\
            meta_data['Unit'] and \\
            meta_data['Unit'] is not None):
            self.defaults['unit'] = meta_data['Unit']
""", """        for default, key in {'spectrum_type': 'SpectrumType', 'unit': 'Unit'}.items():
            if meta_data.get(key):
                self.defaults[default] = meta_data[key]
"""))
ref('m-model-output', (M, """        if model.output == 'n':
            self.data['name'] = 'nk'
            self.data['real'] = model
        elif model.output == 'k':
            self.data['name'] = 'nk'
            self.data['imag'] = model
        elif model.output == 'nk':
            self.data['name'] = 'nk'
            self.data['complex'] = model
        elif model.output == 'epsr':
            self.data['name'] = 'eps'
            self.data['real'] = model
        elif model.output == 'epsi':
            self.data['name'] = 'eps'
            self.data['imag'] = model
        elif model.output == 'eps':
            self.data['name'] = 'eps'
            self.data['complex'] = model
        else:
            raise ValueError("model output <{}> invalid".format(model.output))
""", """        slots = {'n': ('nk', 'real'), 'k': ('nk', 'imag'), 'nk': ('nk', 'complex'),
                 'epsr': ('eps', 'real'), 'epsi': ('eps', 'imag'),
                 'eps': ('eps', 'complex')}
        try:
            name, part = slots[model.output]
        except KeyError:
            raise ValueError("model output <{}> invalid".format(model.output)) from None
        self.data.update({'name': name, part: model})
"""))
ref('m-formula', (M, """        if meta_data['ValidRange']:
            valid_range = meta_data['ValidRange'].split()

        for i_valid_range, v_range in enumerate(valid_range):
            valid_range[i_valid_range] = float(v_range)
        model_dict['valid_range'] = valid_range

        coefficients = str(data_dict['Data']).split()
        for iter_coeff, coeff in enumerate(coefficients):
            coefficients[iter_coeff] = float(coeff)
        model_dict['parameters'] = np.array(coefficients)


        if meta_data['SpectrumType']:
            model_dict['spectrum_type'] = meta_data['SpectrumType']
        else:
            model_dict['spectrum_type'] = self.defaults['spectrum_type']

        if meta_data['Unit']:
            model_dict['unit'] = meta_data['Unit']
        else:
            model_dict['unit'] = self.defaults['unit']
""", """        if not meta_data['ValidRange']:
            raise ValueError("a model needs a valid range")
        model_dict['valid_range'] = [float(val) for val in meta_data['ValidRange'].split()]
        model_dict['parameters'] = np.array(list(map(float, str(data_dict['Data']).split())))
        model_dict['spectrum_type'] = (meta_data['SpectrumType'] or
                                       self.defaults['spectrum_type'])
        model_dict['unit'] = meta_data['Unit'] or self.defaults['unit']
"""))
ref('m-file-meta', (M, """        self.meta_data = {}
        self.meta_data['Reference'] = file_dict['MetaData']['Reference']
        self.meta_data['Comment'] = file_dict['MetaData']['Comment']
        self.meta_data['Name'] = file_dict['MetaData']['Name']
        self.meta_data['FullName'] = file_dict['MetaData']['FullName']
        self.meta_data['Author'] = file_dict['MetaData']['Author']
        self.meta_data['Alias'] = ""
        self.meta_data['MetaComment'] = file_dict['MetaData']['MetaComment']
        self.meta_data['Specification'] = file_dict['MetaData']['Specification']
        datasets = file_dict['Datasets']
""", """        given = file_dict['MetaData']
        self._set_default_meta_data()
        self.meta_data.update((key, given[key]) for key in self.meta_data
                              if key != 'Alias')
        datasets = file_dict['Datasets']
"""))
ref('m-sample-clip', (M, """            values = np.geomspace(max_range[0], max_range[1], 1000)
            if values[0] < max_range[0]:
                values[0] = max_range[0]
            if values[-1] > max_range[1]:
                values[-1] = max_range[1]
            spectrum = Spectrum(values,
""", """            lower, upper = max_range
            values = np.clip(np.geomspace(lower, upper, num=1000), lower, upper)
            spectrum = Spectrum(values,
"""))
ref('m-collapse', (M, """        n_collapsable = 0
        for dataset in datasets:
            if dataset['DataType'] in {'tabulated n', 'tabulated eps_r'}:
                n_data = _str_table_to_numeric(dataset['Data'])
                n_collapsable += 1
            if dataset['DataType'] in {'tabulated k', 'tabulated eps_i'}:
                k_data = _str_table_to_numeric(dataset['Data'])
                n_collapsable += 1

        if n_collapsable < 2:
            return datasets

        collapse = True
        if not np.array_equal(n_data[:, 0], k_data[:, 0]):
            collapse = False

        if datasets[0]['Unit'] != datasets[1]['Unit']:
            collapse = False

        if datasets[0]['SpectrumType'] != datasets[1]['SpectrumType']:
            collapse = False

        if not collapse:
            return datasets

        new_dataset = {}
        new_dataset['Unit'] = datasets[0]['Unit']
        new_dataset['SpectrumType'] = datasets[0]['SpectrumType']
        new_dataset['DataType'] = self.add_dtype_suffix('tabulated', 'complex')
        k_data = k_data[:, 1].reshape(k_data.shape[0], 1)
        new_data = np.concatenate([n_data, k_data], axis=1)
        new_dataset['Data'] = _numeric_to_string_table(new_data)
        return [new_dataset]
""", """        if len(datasets) != 2 or not all(dset['DataType'].startswith('tabulated')
                                         for dset in datasets):
            return datasets
        first, second = datasets
        for key in ('Unit', 'SpectrumType'):
            if first[key] != second[key]:
                return datasets
        n_data = _str_table_to_numeric(first['Data'])
        k_data = _str_table_to_numeric(second['Data'])
        if not np.array_equal(n_data[:, 0], k_data[:, 0]):
            return datasets
        merged = np.column_stack([n_data, k_data[:, 1]])
        return [{'Unit': first['Unit'],
                 'SpectrumType': first['SpectrumType'],
                 'DataType': self.add_dtype_suffix('tabulated', 'complex'),
                 'Data': _numeric_to_string_table(merged)}]
"""))
ref('m-bruggeman', (M, """    def _get_bruggeman_solution1(self, eps_b, eps_a):
        q = -0.5*eps_a*eps_b
        p = 0.5*(self.frac*(eps_b-2*eps_a) + (1-self.frac)*(eps_a-2*eps_b) )
        return -p*0.5  + np.sqrt((0.5*p)**2 - q)

    def _get_bruggeman_solution2(self, eps_b, eps_a):
        q = -0.5*eps_a*eps_b
        p = 0.5*(self.frac*(eps_b-2*eps_a) + (1-self.frac)*(eps_a-2*eps_b) )
        return -p*0.5  - np.sqrt((0.5*p)**2 - q)
""", """    def _quadratic(self, eps_b, eps_a):
        half = 0.25*(self.frac*(eps_b-2*eps_a) + (1-self.frac)*(eps_a-2*eps_b))
        return half, np.sqrt(half**2 + 0.5*eps_a*eps_b)

    def _get_bruggeman_solution1(self, eps_b, eps_a):
        half, root = self._quadratic(eps_b, eps_a)
        return root - half

    def _get_bruggeman_solution2(self, eps_b, eps_a):
        half, root = self._quadratic(eps_b, eps_a)
        return -half - root
"""))
ref('m-eq', (M, """        if not isinstance(other, Material):
            return False

        if not self.meta_data == other.meta_data:
            return False

        if not self.data['name'] == other.data['name']:
            return False
        return True
""", """        return (isinstance(other, Material) and
                self.data['name'] == other.data['name'] and
                self.meta_data == other.meta_data)
"""))
ref('m-extrapolate', (M, """        if self.data['complex'] is None:
            extrapolated = {}
            for data_name in ['real', 'imag']:
                if isinstance(self.data[data_name], Constant):
                    continue
                extrapolated[data_name] = Extrapolation(self.data[data_name],
                                                        new_spectrum,
                                                        spline_order=spline_order)
            self.data.update(extrapolated)
        else:
            raise NotImplementedError("extrapolation not implemented " +
                                      "for materials with real and imaginary "+
                                      "parts not independent from each other")
""", """        if self.data['complex'] is not None:
            raise NotImplementedError("extrapolation not implemented " +
                                      "for materials with real and imaginary "+
                                      "parts not independent from each other")
        extended = {name: Extrapolation(part, new_spectrum, spline_order)
                    for name, part in self.data.items()
                    if name in ('real', 'imag') and not isinstance(part, Constant)}
        for name, part in extended.items():
            self.data[name] = part
"""))
ref('m-strtoclass', (M, """        try:
            identifier = getattr(spectral_data, field)
        except AttributeError:
            raise NameError("%s doesn't exist." % field)
        if (isinstance(identifier, type) and
                issubclass(identifier, spectral_data.SpectralData)):
            return identifier
        raise TypeError("%s is not a spectral data class." % field)
""", """        identifier = getattr(spectral_data, field, None)
        if identifier is None:
            raise NameError(f"{field} doesn't exist.")
        if not isinstance(identifier, type) or \\
                not issubclass(identifier, spectral_data.SpectralData):
            raise TypeError(f"{field} is not a spectral data class.")
        return identifier
"""))
ref('m-strtoclass-vars', (M, """        try:
            identifier = getattr(spectral_data, field)
        except AttributeError:
            raise NameError("%s doesn't exist." % field)
        if (isinstance(identifier, type) and
                issubclass(identifier, spectral_data.SpectralData)):
            return identifier
        raise TypeError("%s is not a spectral data class." % field)
""", """        known = {name: item for name, item in vars(spectral_data).items()
                 if isinstance(item, type)
                 and issubclass(item, spectral_data.SpectralData)}
        if field in known:
            return known[field]
        if hasattr(spectral_data, field):
            raise TypeError("%s is not a spectral data class." % field)
        raise NameError("%s doesn't exist." % field)
"""))

# ----------------------------------------------------------------------- io
ref('i-str-table', (I, """        numeric_table = []
        for row in table.split('\\n'):
            if row.isspace() or row == "":
                break
            numeric_col = []
            for col in row.split():
                numeric_col.append(float(col))
            numeric_table.append(numeric_col)
        numeric_table = np.array(numeric_table)
""", """        rows = []
        for row in table.split('\\n'):
            if not row.strip():
                break
            rows.append([float(col) for col in row.split()])
        numeric_table = np.array(rows)
"""))
ref('i-str-table-takewhile', (I, """        numeric_table = []
        for row in table.split('\\n'):
            if row.isspace() or row == "":
                break
            numeric_col = []
            for col in row.split():
                numeric_col.append(float(col))
            numeric_table.append(numeric_col)
        numeric_table = np.array(numeric_table)
""", """        lines = itertools.takewhile(str.strip, table.split('\\n'))
        numeric_table = np.array([list(map(float, line.split())) for line in lines])
"""), (I, "import tempfile\n", "import tempfile\nimport itertools\n"))
ref('i-fix-table', (I, """    n_cols = tabulated_data.shape[1]
    new_rows = [tabulated_data[0, :]]
    last_valid = tabulated_data[0, 0]
    for row in range(1, tabulated_data.shape[0]):
        if not tabulated_data[row, 0] > last_valid:
            continue
        else:
            new_rows.append(tabulated_data[row, :])
            last_valid = tabulated_data[row, 0]
    return np.array(new_rows).reshape(-1, n_cols)
""", """    keep = [0]
    for row in range(1, len(tabulated_data)):
        if tabulated_data[row, 0] > tabulated_data[keep[-1], 0]:
            keep.append(row)
    return tabulated_data[keep, :]
"""), (I, """    return np.all(tabulated_data[1:, 0] > tabulated_data[:-1, 0])
""", """    return bool(np.all(np.diff(tabulated_data[:, 0]) > 0))
"""))
ref('i-fix-table-mask', (I, """    n_cols = tabulated_data.shape[1]
    new_rows = [tabulated_data[0, :]]
    last_valid = tabulated_data[0, 0]
    for row in range(1, tabulated_data.shape[0]):
        if not tabulated_data[row, 0] > last_valid:
            continue
        else:
            new_rows.append(tabulated_data[row, :])
            last_valid = tabulated_data[row, 0]
    return np.array(new_rows).reshape(-1, n_cols)
""", """    highest = np.maximum.accumulate(tabulated_data[:, 0])
    mask = np.ones(tabulated_data.shape[0], dtype=bool)
    mask[1:] = tabulated_data[1:, 0] > highest[:-1]
    return tabulated_data[mask]
"""))
ref('i-numeric-to-string', (I, """    string_array = np.array2string(np.asarray(table),
                                   threshold=sys.maxsize,
                                   max_line_width=sys.maxsize,
                                   floatmode='unique')
    no_brackets = re.sub(r'[\\[\\]]', '', string_array)
    no_indent = re.sub(r'\\n ', r"\\n", no_brackets)
    no_indent = no_indent.rstrip().lstrip()
    return no_indent
""", """    text = np.array2string(np.asarray(table), threshold=sys.maxsize,
                           max_line_width=sys.maxsize, floatmode='unique')
    text = text.replace('[', '').replace(']', '')
    return text.replace('\\n ', '\\n').strip()
"""))
ref('i-yaml-helper', (I, """        if USE_RUAMEL:
            yaml_obj = YAML()
            yaml_data = yaml_obj.load(fpt)
        else:
            try:
                yaml_data = yaml.load(fpt, Loader=yaml.FullLoader)
            except AttributeError:
                yaml_data = yaml.safe_load(fpt)
    return yaml_data
""", """        return _load_yaml(fpt)

def _load_yaml(source):
    \"\"\"parse yaml from a stream or string\"\"\"
    if USE_RUAMEL:
        return YAML().load(source)
    loader = getattr(yaml, 'FullLoader', yaml.SafeLoader)
    return yaml.load(source, Loader=loader)
"""), (I, """    if USE_RUAMEL:
        yaml_obj = YAML()
        yaml_data = yaml_obj.load(string_data)
    else:
        try:
            yaml_data = yaml.load(string_data, Loader=yaml.FullLoader)
        except AttributeError:
            yaml_data = yaml.safe_load(string_data)
    return yaml_data
""", """    return _load_yaml(string_data)
"""))
ref('i-prepend', (I, """    with open(file_path, 'r', encoding='utf8') as fpt:
        current_text = fpt.read()

    with open(file_path, 'w', encoding='utf8') as fpt:
        text = text.rstrip('\\n\\r')
        text = text.replace("\\n", "\\n" + mark)
        text = mark + text
        text += "\\n"
        if extra_line:
            text += "\\n"
        fpt.write(text)
        fpt.write(current_text)
""", """    lines = [mark + line for line in text.rstrip('\\n\\r').split("\\n")]
    if extra_line:
        lines.append("")
    with open(file_path, 'r+', encoding='utf8') as fpt:
        current_text = fpt.read()
        fpt.seek(0)
        fpt.write("\\n".join(lines) + "\\n" + current_text)
        fpt.truncate()
"""))
ref('i-valid-name', (I, """    if os.path.basename(filename) != filename:
        return False
    with tempfile.TemporaryDirectory() as temp_dir:
        file_path = os.path.join(temp_dir, filename)
        try:
            with open(file_path, 'w'):
                return True
        except IOError:
            return False
""", """    head, tail = os.path.split(filename)
    if head:
        return False
    with tempfile.TemporaryDirectory() as temp_dir:
        try:
            open(os.path.join(temp_dir, tail), 'w').close()
        except OSError:
            return False
    return True
"""))
ref('i-text-data', (I, """        fname, ext = os.path.splitext(self.file_path)
        try:
            if ext == '.txt':
                try:
                    data = np.loadtxt(self.file_path, ndmin=2, encoding='utf-8')
                except TypeError:
                    with open(self.file_path, encoding = 'utf-8') as fpt:
                        data = np.loadtxt(fpt, ndmin=2)
            elif ext == '.csv':
                try:
                    data = np.loadtxt(self.file_path, ndmin=2, encoding='utf-8',
                                      delimiter=',')
                except TypeError:
                    with open(self.file_path, encoding = 'utf-8') as fpt:
                        data = np.loadtxt(fpt, ndmin=2, delimiter=',')
            elif ext == '.nk':
                try:
                    data = np.loadtxt(self.file_path, ndmin=2, encoding='utf-8',
                                      comments=';')
                except TypeError:
                    with open(self.file_path, encoding = 'utf-8') as fpt:
                        data = np.loadtxt(fpt, ndmin=2, comments=';')
        except IOError as exc:
            raise exc
        data_dict = self._create_default_data_dict()
        data_dict['Data'] = data
        return data_dict
""", """        options = {'.txt': {}, '.csv': {'delimiter': ','}, '.nk': {'comments': ';'}}
        with open(self.file_path, 'r', encoding='utf-8') as fpt:
            data = np.loadtxt(fpt, ndmin=2, **options[self.extension])
        data_dict = self._create_default_data_dict()
        data_dict['Data'] = data
        return data_dict
"""))
ref('i-text-comment', (I, """        comment = []
        with codecs.open(self.file_path, 'r', 'utf-8') as fpt:
            for line in fpt:
                if line[0] == "#" or line[0] == ';':
                    comment.append(line[1:].rstrip("\\n\\r"))
                else:
                    return comment
        return comment
""", """        with open(self.file_path, 'r', encoding='utf-8') as fpt:
            lines = fpt.readlines()
        comment = []
        for line in lines:
            if not line.startswith(('#', ';')):
                break
            comment.append(line[1:].rstrip("\\n\\r"))
        return comment
"""))
ref('i-text-header', (I, """            kwd_arg = line.split(":")
            kwd = kwd_arg[0].upper().lstrip()
            if len(kwd_arg) == 1:
                multi_line_comment += line + "\\n"
            else:
                arg = ":".join(kwd_arg[1:]).rstrip("\\n\\r").lstrip()
                #arg = kwd_arg[1].rstrip("\\n\\r").lstrip()
                valid_key_val = False
                for key in Reader.FILE_META_DATA_KEYS:
                    if kwd.startswith(key.upper()):
                        if key == 'Specification':
                            file_dict['MetaData'][key] = str(arg)
                        else:
                            file_dict['MetaData'][key] = arg
                        valid_key_val = True
                        break
                if valid_key_val is False:
                    for key in Reader.DATASET_META_DATA_KEYS:
                        if kwd.startswith(key.upper()):
                            file_dict['Datasets'][0][key] = arg
                            valid_key_val = True
                            break
                #if valid_key_val is False:
                #    KeyError("keyword " +
                #             "[{}] in comment header invalid".format(kwd))
                #else:
                if valid_key_val is False:
                    multi_line_comment += line + "\\n"
""", """            kwd, colon, arg = line.partition(":")
            kwd = kwd.upper().lstrip()
            arg = arg.rstrip("\\n\\r").lstrip()
            if not colon or not self._store_keyword(file_dict, kwd, arg):
                multi_line_comment += line + "\\n"
"""), (I, """    def _read_yaml_mat_file(self):
""", """    @staticmethod
    def _store_keyword(file_dict, kwd, arg):
        \"\"\"puts the argument of a known keyword in its place\"\"\"
        targets = ((Reader.FILE_META_DATA_KEYS, file_dict['MetaData']),
                   (Reader.DATASET_META_DATA_KEYS, file_dict['Datasets'][0]))
        for keys, target in targets:
            for key in keys:
                if kwd.startswith(key.upper()):
                    target[key] = arg
                    return True
        return False

    def _read_yaml_mat_file(self):
"""))
ref('i-rii-aliases', (I, """            yaml_datasets = []
            for dataset in yaml_dict['DATA']:

                yaml_dataset = {}
                for key in dataset:
                    if key in {"SpectrumType", "Unit", "Yields"}:
                        continue
                    value = dataset[key]
                    if value in Writer.RII_ALIASES:
                        value = Writer.RII_ALIASES[value]
                    if key in Writer.RII_ALIASES:
                        yaml_dataset[Writer.RII_ALIASES[key]] = value
                    else:
                        yaml_dataset[key] = value
                yaml_datasets.append(yaml_dataset)
            yaml_dict['DATA'] = yaml_datasets
""", """            rename = lambda item: Writer.RII_ALIASES.get(item, item)
            yaml_dict['DATA'] = [
                {rename(key): rename(value) for key, value in dataset.items()
                 if key not in ("SpectrumType", "Unit", "Yields")}
                for dataset in yaml_dict['DATA']]
"""))
ref('i-mat-data', (I, """            try:
                data_type = dataset['type'].lstrip()
            except KeyError:
                data_type = dataset['DataType'].lstrip()
            data_dict['DataType'] = data_type
            if (data_type.startswith('formula') or
                    data_type.startswith('model')):
                try:
                    data_dict['Data'] = dataset['coefficients']
                except KeyError:
                    data_dict['Data'] = dataset['Parameters']
            elif data_type.startswith('tabulated'):
                try:
                    data_dict['Data'] = dataset['data']
                except KeyError:
                    data_dict['Data'] = dataset['Data']
            else:
                raise KeyError("data type <{}> invalid".format(data_type))
""", """            data_type = (dataset['type'] if 'type' in dataset
                         else dataset['DataType']).lstrip()
            if data_type.startswith(('formula', 'model')):
                names = ('coefficients', 'Parameters')
            elif data_type.startswith('tabulated'):
                names = ('data', 'Data')
            else:
                raise KeyError("data type <{}> invalid".format(data_type))
            data_dict['DataType'] = data_type
            data_dict['Data'] = dataset[names[0]] if names[0] in dataset else dataset[names[1]]
"""))
ref('i-text-writer', (I, """        header = ""
        for key in Writer.DATA_META_DATA_KEYS:
            if key in self.file_dict['MetaData']:
                alias = Writer.KEY_ALIASES[key]
                header += "{}: {}\\n".format(alias,
                                            self.file_dict['MetaData'][key])

""", """        meta_data = self.file_dict['MetaData']
        header = "".join("%s: %s\\n" % (Writer.KEY_ALIASES[key], meta_data[key])
                         for key in Writer.DATA_META_DATA_KEYS if key in meta_data)
"""), (I, """        if self.extension == '.txt':
            delimiter = "\\t"
        elif self.extension == '.csv':
            delimiter = ","
        elif self.extension == '.nk':
            delimiter = "\\t"
""", """        delimiter = "," if self.extension == '.csv' else "\\t"
"""))
ref('i-atomic', (I, """    with open(file_path, 'w', encoding='utf8') as fpt:
        if USE_RUAMEL:
            yaml_obj = YAML()
            yaml_obj.indent(mapping=4, sequence=4, offset=2)
            scalarstring.walk_tree(dict_like)
            yaml_obj.dump(dict_like, fpt)
        else:
            yaml.dump(dict_like, fpt)
""", """    if USE_RUAMEL:
        yaml_obj = YAML()
        yaml_obj.indent(mapping=4, sequence=4, offset=2)
        scalarstring.walk_tree(dict_like)
        dump = yaml_obj.dump
    else:
        dump = yaml.dump
    with open(file_path, mode='w', encoding='utf-8') as fpt:
        dump(dict_like, fpt)
"""))

# ---------------------------------------------------------------- catalogue
ref('c-entry-helper', (C, """            content_dict = {}
            content_dict['Alias'] = ""
            content_dict['Name'] = name
            content_dict['FullName'] = mat.meta_data['FullName']
            content_dict['Author'] = mat.meta_data['Author']
            content_dict['Module'] = database_name
            content_dict['Comment'] = mat.meta_data['Comment']
            content_dict['Reference'] = mat.meta_data['Reference']
            content_dict['SpectrumType'] = mat.defaults['spectrum_type']
            content_dict['Unit'] = mat.defaults['unit']
            valid_range = mat.get_maximum_valid_range()
            content_dict['SpectrumLowerBound'] = valid_range[0]
            content_dict['SpectrumUpperBound'] = valid_range[1]
            content_dict['Path'] = os.path.normpath(filename)
            try:
                ref_index = mat.get_nk_data(self.reference_spectrum)
            except ValueError as valE:
                ref_index = float('nan') + 1j* float('nan')

            content_dict['N_Reference'] = np.real(ref_index)
            content_dict['K_Reference'] = np.imag(ref_index)
            database_list.append(content_dict)
""", """            entry = self._describe(mat)
            entry.update(Name=name, Module=database_name,
                         FullName=mat.meta_data['FullName'],
                         Author=mat.meta_data['Author'],
                         Path=os.path.normpath(filename))
            database_list.append(entry)
"""), (C, """                fullname = self.rii_loader['current_full_name']
                content_dict = {"Alias":"",
                                "Name":self.rii_loader['current_book'],
                                "FullName":fullname,
                                "Author":page['PAGE'],
                                "Path":os.path.normpath(rel_path),
                                "Module":"RefractiveIndexInfo"}
                content_dict['SpectrumType'] = mat.defaults['spectrum_type']
                content_dict['Unit'] = mat.defaults['unit']
                valid_range = mat.get_maximum_valid_range()
                content_dict['SpectrumLowerBound'] = valid_range[0]
                content_dict['SpectrumUpperBound'] = valid_range[1]
                content_dict['Reference'] = mat.meta_data['Reference']
                content_dict['Comment'] = mat.meta_data['Comment']
                try:
                    ref_spectrum = self.reference_spectrum
                    ref_index = mat.get_nk_data(ref_spectrum)
                except ValueError:
                    ref_index = np.nan + 1j* np.nan

                content_dict['N_Reference'] = np.real(ref_index)
                content_dict['K_Reference'] = np.imag(ref_index)
                self.rii_loader['database_list'].append(content_dict)

""", """                self.rii_loader['database_list'].append(dict(
                    self._describe(mat),
                    Name=self.rii_loader['current_book'],
                    FullName=self.rii_loader['current_full_name'],
                    Author=page['PAGE'],
                    Path=os.path.normpath(rel_path),
                    Module="RefractiveIndexInfo"))

    def _describe(self, mat):
        \"\"\"the part of a catalogue entry that comes from the material\"\"\"
        lower, upper = mat.get_maximum_valid_range()
        try:
            ref_index = mat.get_nk_data(self.reference_spectrum)
        except ValueError:
            ref_index = complex(np.nan, np.nan)
        return {'Alias': "",
                'Comment': mat.meta_data['Comment'],
                'Reference': mat.meta_data['Reference'],
                'SpectrumType': mat.defaults['spectrum_type'],
                'Unit': mat.defaults['unit'],
                'SpectrumLowerBound': lower,
                'SpectrumUpperBound': upper,
                'N_Reference': np.real(ref_index),
                'K_Reference': np.imag(ref_index)}

"""))
ref('c-concat-list', (C, """        df_new = pd.DataFrame(columns=Catalogue.META_DATA.keys())
        for module, valid in config_modules.items():
            if valid:
                if module in rebuild or rebuild == 'All':
                    print("Building {}".format(module))
                    db_path = module
                    dir_path = os.path.join(self.base_path, db_path)
                    read_function = all_modules[module]
                    dframe = read_function(dir_path)
                    df_new = pd.concat([df_new, dframe], sort=False,
                                       ignore_index=True)
                else:
                    dframe = df[df.Module == module]
                    df_new = pd.concat([df_new, dframe], sort=False,
                                       ignore_index=True)

            else:
                if module in rebuild:
                    raise ValueError("Tried to rebuild module" +
                                     "{}".format(rebuild) +
                                     ", however this module is disabled" +
                                     " in the configuration.")
        return df_new
""", """        frames = [pd.DataFrame(columns=Catalogue.META_DATA.keys())]
        for module, enabled in config_modules.items():
            selected = module in rebuild
            if not enabled:
                if selected:
                    raise ValueError("Tried to rebuild module" +
                                     "{}".format(rebuild) +
                                     ", however this module is disabled" +
                                     " in the configuration.")
                continue
            if selected or rebuild == 'All':
                print("Building {}".format(module))
                frames.append(all_modules[module](os.path.join(self.base_path, module)))
            else:
                frames.append(df.loc[df['Module'] == module])
        return pd.concat(frames, sort=False, ignore_index=True)
"""))
ref('c-alias', (C, """        if alias in self.database.loc[:, 'Alias'].values:
            if not self.database.at[index, 'Alias'] == alias:
                raise ValueError("Alias {} ".format(alias) +
                                 "already in use. Failed to " +
                                 "add to catalogue.")

        self.database.at[index, 'Alias'] = alias
""", """        others = self.database['Alias'].drop(index)
        if (others == alias).any() and self.database.loc[index, 'Alias'] != alias:
            raise ValueError("Alias {} ".format(alias) +
                             "already in use. Failed to " +
                             "add to catalogue.")
        self.database.loc[index, 'Alias'] = alias
"""))
ref('c-get-material', (C, """            bool_array = self.database.Alias.values == identifier
            bool_list = bool_array.tolist()
            row_index = self.database.index[bool_list]
            if row_index.size == 0:
                raise ValueError("identifier {} does not ".format(identifier) +
                                 "name a valid alias in the " +
                                 "catalogue")
            row = self.database.loc[row_index[0], :]
""", """            matching = self.database[self.database['Alias'] == identifier]
            if matching.empty:
                raise ValueError("identifier {} does not ".format(identifier) +
                                 "name a valid alias in the " +
                                 "catalogue")
            row = matching.iloc[0]
"""), (C, """        mat = Material(file_path=file_path,
                           spectrum_type=row.SpectrumType,
                           unit=row.Unit)
        return mat
""", """        return Material(file_path=file_path, spectrum_type=row['SpectrumType'],
                        unit=row['Unit'])
"""))
ref('c-text-db', (C, """        onlyfiles = [f for f in os.listdir(db_path)
                     if os.path.isfile(os.path.join(db_path, f))]

        dframe = pd.DataFrame(columns=Catalogue.META_DATA.keys())
        database_list = []
        for filename in onlyfiles:
            [name, ext] = os.path.splitext(filename)
            allowed_ext = {'.txt', '.csv', '.yml'}
            if ext not in allowed_ext:
                continue

            mat = Material(file_path=os.path.join(db_path, filename),
""", """        database_list = []
        for filename in os.listdir(db_path):
            full_path = os.path.join(db_path, filename)
            name, ext = os.path.splitext(filename)
            if ext not in ('.txt', '.csv', '.yml') or not os.path.isfile(full_path):
                continue

            mat = Material(file_path=full_path,
"""))
ref('c-rii-inline', (C, """        for page in pages:
            if "DIVIDER" in page:
                continue
            elif "PAGE" in page:
                db_path = self.rii_loader['db_path']
                if os.path.isdir(os.path.join(db_path, 'database','data')):
                    file_prefix = os.path.join('database','data')
                elif os.path.isdir(os.path.join(db_path, 'database','data-nk')):
                    file_prefix = os.path.join('database','data-nk')
                else:
                    file_prefix = os.path.join('database','data-nk')
                    raise ValueError("required subfolder {} of ".format(file_prefix) +
                                     "database file structure does not exist")
                rel_path = os.path.join(file_prefix, page['data'])
""", """        for page in pages:
            if "DIVIDER" in page:
                continue
            elif "PAGE" in page:
                db_path = self.rii_loader['db_path']
                file_prefix = self._find_prefix(db_path)
                rel_path = os.path.join(file_prefix, page['data'])
"""), (C, """    def _iterate_pages(self, pages):
""", """    @staticmethod
    def _find_prefix(db_path):
        \"\"\"subfolder that holds the data files\"\"\"
        for folder in ('data', 'data-nk'):
            prefix = os.path.join('database', folder)
            if os.path.isdir(os.path.join(db_path, prefix)):
                return prefix
        raise ValueError("required subfolder {} of ".format(prefix) +
                         "database file structure does not exist")

    def _iterate_pages(self, pages):
"""))
ref('c-rebuild-loop', (C, """    valid_ans = False
    while not valid_ans:
        ans = input("really rebuild and overwrite material catalogue? (y/n) ")
        if ans == 'n':
            valid_ans = True
            return
        elif ans == 'y':
            valid_ans = True
""", """    ans = None
    while ans not in ('y', 'n'):
        ans = input("really rebuild and overwrite material catalogue? (y/n) ")
    if ans == 'n':
        return
"""))

# ------------------------------------------------------------ config, script
ref('f-config-loop', (F, """    user_dir = _get_user_config_dir()
    file_path = os.path.join(user_dir, 'config.yaml')
    if os.path.isfile(file_path):
        return user_dir
    pkg_dir = _get_package_dir()
    file_path = os.path.join(pkg_dir, 'config.yaml')
    if os.path.isfile(file_path):
        return pkg_dir
    raise ValueError(""", """    for find_dir in (_get_user_config_dir, _get_package_dir):
        candidate = find_dir()
        if os.path.isfile(os.path.join(candidate, 'config.yaml')):
            return candidate
    raise ValueError("""), (F, """    if not os.path.exists(config_dir):
        os.makedirs(config_dir)
    return config_dir
""", """    os.makedirs(config_dir, exist_ok=True)
    return config_dir
"""))
ref('f-validate', (F, """    check_type(config['Interactive'],bool)
    check_type(config['WarnMissingPackages'],bool)
    assert "Modules" in config
    for value in config['Modules'].values():
        check_type(value,bool)
    assert "ReferenceSpectrum" in config
    ref_spec = config['ReferenceSpectrum']
    check_type(ref_spec['Value'],float)
    check_type(ref_spec['SpectrumType'],str)
    check_type(ref_spec['Unit'],str)
""", """    for key in ('Interactive', 'WarnMissingPackages'):
        check_type(config[key], bool)
    assert "Modules" in config
    for module in config['Modules']:
        check_type(config['Modules'][module], bool)
    assert "ReferenceSpectrum" in config
    expected = {'Value': float, 'SpectrumType': str, 'Unit': str}
    for key, val_type in expected.items():
        check_type(config['ReferenceSpectrum'][key], val_type)
"""))
ref('f-default-dict', (F, """    config = read_yaml_string(yaml_str)
    config['Path'] = _get_user_config_dir()
    return config
""", """    settings = read_yaml_string(textwrap.dedent(yaml_str))
    settings.update(Path=_get_user_config_dir())
    return settings
"""), (F, "import os\nfrom warnings", "import os\nimport textwrap\nfrom warnings"))
ref('p-ask', (P, """    valid_input = False
    while not valid_input:
        user_input = input(question.format(default))
        if user_input == "":
            user_input = default
        if validator(user_input):
            valid_input = True
        else:
            print("input is not valid")
    return user_input
""", """    while True:
        user_input = input(question.format(default)) or default
        if validator(user_input):
            return user_input
        print("input is not valid")
"""), (P, """    confirmed_input = False
    while not confirmed_input:
        confirmation1 = input(question)
        if confirmation1 in {'y', 'yes'}:
            confirmed_input = True
        elif confirmation1 in {'n', 'no'}:
            confirmed_input = False
            break
        else:
            print("input invalid")
    return confirmed_input
""", """    answers = {'y': True, 'yes': True, 'n': False, 'no': False}
    answer = input(question)
    while answer not in answers:
        print("input invalid")
        answer = input(question)
    return answers[answer]
"""))
ref('p-main', (P, """    confirmed_valid_path = False
    while not confirmed_valid_path:
        [path, confirmed_valid_path] = get_root_dir(conf)
    conf['Path'] = path
    #print("Path will be se to: {}".format(path))
    confirmed_db_nane = False
    while not confirmed_db_nane:
        [name, confirmed_db_nane] = get_catalogue_name(conf)
    conf['File'] = name
""", """    def repeat(getter):
        while True:
            value, confirmed = getter(conf)
            if confirmed:
                return value

    path = repeat(get_root_dir)
    conf['Path'] = path
    conf['File'] = repeat(get_catalogue_name)
"""))
ref('p-install', (P, """    for module in conf['Modules']:
        if module == "UserData":
            install = True
        else:
            question = "install module {}? [y/n]> ".format(module)
            install = get_confirmation(question)

        conf['Modules'][module] = install
        if install:
            module_dir = os.path.join(conf['Path'], module)
            if not os.path.isdir(module_dir):
                os.makedirs(module_dir)
            success = install_funcs[module](module_dir)
            if success is False:
                conf['Modules'][module] = success
    return conf
""", """    for module in list(conf['Modules']):
        wanted = (module == "UserData" or
                  get_confirmation(f"install module {module}? [y/n]> "))
        if wanted:
            module_dir = os.path.join(conf['Path'], module)
            os.makedirs(module_dir, exist_ok=True)
            wanted = bool(install_funcs[module](module_dir))
        conf['Modules'][module] = wanted
    return conf
"""), (P, """        if not os.path.isdir(module_dir):
            warnings.warn("directory for refractive index info module"+
                          " not present: {}".format(module_dir) +
                          " refractive index info module will be disabled")
            return False
        database_dir = os.path.join(module_dir, "database")
        if not os.path.isdir(database_dir):
            warnings.warn("directory for refractive index info module"+
                          " not present: {}".format(database_dir) +
                          " refractive index info module will be disabled")
            return False
""", """        database_dir = os.path.join(module_dir, "database")
        for needed in (module_dir, database_dir):
            if not os.path.isdir(needed):
                warnings.warn("directory for refractive index info module"+
                              " not present: {}".format(needed) +
                              " refractive index info module will be disabled")
                return False
"""))
ref('s-convert-dispatch', (S, """        convert_methods = {'frequency': to_frequency,
                           'energy': to_energy,
                           'angularfrequency': to_ang_freq,
                           'wavenumber': to_wavenumber,
                           'wavelength': to_wavelength}

        if spectrum_type == self.spectrum_type and unit == self.unit:
            # no round trip, it would not return exactly the same numbers
            converted_values = np.copy(self.values)[()]
        else:
            converted_values = convert_methods[spectrum_type](unit, values)
        if in_place:
            self.values = converted_values
            self.spectrum_type = spectrum_type
            self.unit = unit
            return None
        else:
            return converted_values""", """        if (spectrum_type, unit) == (self.spectrum_type, self.unit):
            result = np.array(self.values, copy=True)[()]
        elif spectrum_type == 'wavelength':
            result = to_wavelength(unit, values)
        elif spectrum_type == 'wavenumber':
            result = to_wavenumber(unit, values)
        elif spectrum_type == 'energy':
            result = to_energy(unit, values)
        elif spectrum_type == 'frequency':
            result = to_frequency(unit, values)
        else:
            result = to_ang_freq(unit, values)
        if not in_place:
            return result
        self.values, self.spectrum_type, self.unit = result, spectrum_type, unit"""))
ref('s-converter-enum', (S, """class Spectrum(object):
""", """class _Quantity(Enum):
    \"\"\"spectral quantities and the units they may be given in\"\"\"
    WAVELENGTH = 'wavelength'
    FREQUENCY = 'frequency'
    ENERGY = 'energy'
    ANGULAR = 'angularfrequency'
    WAVENUMBER = 'wavenumber'


class Spectrum(object):
"""), (S, """import scipy.constants as constants
""", """from enum import Enum
import scipy.constants as constants
"""), (S, """        convert_methods = {'frequency': frequency_to_standard,
                           'energy': energy_to_standard,
                           'angularfrequency': ang_freq_to_standard,
                           'wavenumber': wavenumber_to_standard,
                           'wavelength': wavelength_to_standard}

        converted_values = convert_methods[spectrum_type](unit, values)
        return converted_values
""", """        methods = {_Quantity.FREQUENCY: frequency_to_standard,
                   _Quantity.ENERGY: energy_to_standard,
                   _Quantity.ANGULAR: ang_freq_to_standard,
                   _Quantity.WAVENUMBER: wavenumber_to_standard,
                   _Quantity.WAVELENGTH: wavelength_to_standard}
        return methods[_Quantity(spectrum_type)](unit, values)
"""))
ref('s-namedtuple', (S, """    DISPLAY_NAMES = {""", """    Limits = namedtuple('Limits', ['lower', 'upper'])

    DISPLAY_NAMES = {"""), (S, """import scipy.constants as constants
""", """from collections import namedtuple
import scipy.constants as constants
"""), (S, """        other_min = np.min(other_values)
        other_max = np.max(other_values)
        self_min = np.min(self.values)
        self_max = np.max(self.values)
        out_of_range = None
        if other_min < self_min:
            out_of_range = other_min
        elif other_max > self_max:
            out_of_range = other_max
        elif np.isnan(other_max):
            out_of_range = other_max
""", """        asked = Spectrum.Limits(np.min(other_values), np.max(other_values))
        own = Spectrum.Limits(lower=np.min(self.values), upper=np.max(self.values))
        self_min, self_max = own
        out_of_range = None
        if asked.lower < own.lower:
            out_of_range = asked.lower
        elif asked.upper > own.upper:
            out_of_range = asked.upper
"""))
ref('s-partial', (S, """def to_frequency(unit, values):
    \"\"\"converts values from standard to frequency representation\"\"\"
    if not unit == 'hz':
        raise NotImplementedError("support for frequency units " +
                                  "other than Hz not implemented")
    inverse = safe_inverse(values)
    return constants.c * inverse
""", """def _reciprocal(factor, expected, unit, values):
    if unit != expected:
        raise NotImplementedError("support for units other than " +
                                  "{} not implemented".format(expected))
    return factor*safe_inverse(values)


to_frequency = functools.partial(_reciprocal, constants.c, 'hz')
"""), (S, """import scipy.constants as constants
""", """import functools
import scipy.constants as constants
"""))
ref('m-valid-range', (M, """        if self.data['complex'] is None:
            parts = [self.data['real'], self.data['imag']]
        else:
            parts = [self.data['complex']]
        ranges = [part.valid_range.convert_to(self.defaults['spectrum_type'],
                                              self.defaults['unit'])
                  for part in parts]
        lower = np.max([np.min(part_range) for part_range in ranges])
        upper = np.min([np.max(part_range) for part_range in ranges])
        return np.array([lower, upper])
""", """        names = ('real', 'imag') if self.data['complex'] is None else ('complex',)
        limits = np.zeros((len(names), 2))
        for row, name in enumerate(names):
            converted = self.data[name].valid_range.convert_to(self.defaults['spectrum_type'],
                                                               self.defaults['unit'])
            limits[row] = np.sort(converted)
        return np.array([limits[:, 0].max(), limits[:, 1].min()])
"""))
ref('m-valid-range-reduce', (M, """        ranges = [part.valid_range.convert_to(self.defaults['spectrum_type'],
                                              self.defaults['unit'])
                  for part in parts]
        lower = np.max([np.min(part_range) for part_range in ranges])
        upper = np.min([np.max(part_range) for part_range in ranges])
        return np.array([lower, upper])
""", """        def limits(part):
            values = part.valid_range.convert_to(self.defaults['spectrum_type'],
                                                 self.defaults['unit'])
            return np.min(values), np.max(values)

        def overlap(first, second):
            return max(first[0], second[0]), min(first[1], second[1])
        return np.array(functools.reduce(overlap, map(limits, parts)))
"""), (M, """import codecs
""", """import codecs
import functools
"""))
ref('m-effective-helper', (M, """    def create_effective_data(self):
        \"\"\"
        this must be implemented in a subclass
        \"\"\"
""", """    def _tabulate(self, eps_eff):
        \"\"\"store the permittivity as a table over wavelength\"\"\"
        wavelengths = self.spectrum.convert_to("wavelength", 'm')
        table = np.column_stack((wavelengths, eps_eff.real, eps_eff.imag))
        self._process_table(table, "eps")

    def create_effective_data(self):
        \"\"\"
        this must be implemented in a subclass
        \"\"\"
"""), (M, """        eps_eff = eps_base*(1-self.frac) + eps_incl*(self.frac)
        wavelengths = self.spectrum.convert_to("wavelength", 'm')
        table = np.vstack([[wavelengths],
                                [np.real(eps_eff)],
                                [np.imag(eps_eff)]]).T
        self._process_table(table, "eps")
""", """        self._tabulate(eps_base + self.frac*(eps_incl - eps_base))
"""), (M, """        eps_eff = eps_base*factor_up/factor_down
        wavelengths = self.spectrum.convert_to("wavelength", 'm')
        table = np.vstack([[wavelengths],
                                [np.real(eps_eff)],
                                [np.imag(eps_eff)]]).T
        self._process_table(table, "eps")
""", """        self._tabulate(eps_base*factor_up/factor_down)
"""))
ref('m-classmethod-make', (M, """    def print_reference(self):
        \"\"\"print material reference\"\"\"
        print(self.utf8_to_ascii(self.meta_data['Reference']))

    def print_comment(self):
        \"\"\"print material comment\"\"\"
        print(self.utf8_to_ascii(self.meta_data['Comment']))
""", """    def _print_field(self, field):
        sys.stdout.write(self.utf8_to_ascii(self.meta_data[field]) + '\\n')

    print_reference = functools.partialmethod(_print_field, 'Reference')
    print_comment = functools.partialmethod(_print_field, 'Comment')
"""), (M, """import codecs
""", """import codecs
import functools
import sys
"""))
ref('m-ascii', (M, """        uni_str = codecs.encode(string, 'utf-8')
        ascii_str = codecs.decode(uni_str, 'ascii', 'ignore')
        return ascii_str
""", """        return ''.join(char for char in string if ord(char) < 128)
"""))
ref('m-ascii-encode', (M, """        uni_str = codecs.encode(string, 'utf-8')
        ascii_str = codecs.decode(uni_str, 'ascii', 'ignore')
        return ascii_str
""", """        return string.encode('ascii', errors='ignore').decode('ascii')
"""))
ref('m-plot-kw', (M, """        plot_data = self._prepare_plot_data(**kwargs)
        if 'axes' not in kwargs:
            plot_data['axes'] = plt.axes()
        else:
            plot_data['axes'] = kwargs['axes']
        if data_label == 'nk':
            data = self.get_nk_data(plot_data['sample'])
            labels = ['n', 'k']
        elif data_label == 'permittivity':
            data = self.get_permittivity(plot_data['sample'])
            labels = ['eps_r', 'eps_i']

        data_r = np.real(data)
        data_i = np.imag(data)
""", """        plot_data = self._prepare_plot_data(**kwargs)
        plot_data['axes'] = kwargs['axes'] if 'axes' in kwargs else plt.axes()
        evaluate, *labels = {'nk': (self.get_nk_data, 'n', 'k'),
                             'permittivity': (self.get_permittivity, 'eps_r', 'eps_i')}[data_label]
        data = evaluate(plot_data['sample'])
        data_r, data_i = np.real(data), np.imag(data)
"""))
ref('m-plot-dataclass', (M, """        data_r = np.real(data)
        data_i = np.imag(data)
        # pylint""", """        drawn = _Curves(np.real(data), np.imag(data))
        data_r, data_i = drawn.real, drawn.imag
        # pylint"""), (M, """import codecs
""", """import codecs
from dataclasses import dataclass
"""), (M, """class Material():
""", """@dataclass
class _Curves:
    \"\"\"the two curves of a plot\"\"\"
    real: object
    imag: object


class Material():
"""))
ref('m-remove-all', (M, """        self.data['imag'] = Constant(0.0)

    def extrapolate(""", """        self.data.update({'imag': self._no_loss()})

    @staticmethod
    def _no_loss():
        return Constant(0.0)

    def extrapolate("""))
ref('m-check-type-any', (M, """                invalid_type = False
                for _type in types:
                    if isinstance(args[arg], _type):
                        invalid_type = True
                if invalid_type is False:
                    raise TypeError(""", """                if not any(isinstance(args[arg], _type) for _type in types):
                    raise TypeError("""))
ref('m-complete-loop', (M, """        if self.data['real'] is None:
            self.data['real'] = Constant(0.0)
        if self.data['imag'] is None:
            self.data['imag'] = Constant(0.0)
""", """        missing = {part: Constant(0.0) for part in ('real', 'imag')
                   if self.data[part] is None}
        self.data = {**self.data, **missing}
"""))
ref('m-formula-walrus', (M, """        coefficients = str(data_dict['Data']).split()
        for iter_coeff, coeff in enumerate(coefficients):
            coefficients[iter_coeff] = float(coeff)
        model_dict['parameters'] = np.array(coefficients)
""", """        model_dict['parameters'] = np.fromiter(map(float, str(data_dict['Data']).split()),
                                               dtype=float)
"""), (M, """        if meta_data['SpectrumType']:
            model_dict['spectrum_type'] = meta_data['SpectrumType']
        else:
            model_dict['spectrum_type'] = self.defaults['spectrum_type']

        if meta_data['Unit']:
            model_dict['unit'] = meta_data['Unit']
        else:
            model_dict['unit'] = self.defaults['unit']
""", """        for key, field in (('spectrum_type', 'SpectrumType'), ('unit', 'Unit')):
            model_dict[key] = given if (given := meta_data[field]) else self.defaults[key]
"""))
ref('m-table-match', (M, """        elif identifier == 'n':
            self.data['name'] = 'nk'
            self.data['real'] = self._spec_data_from_table(table)
        elif identifier == 'k':
            self.data['name'] = 'nk'
            self.data['imag'] = self._spec_data_from_table(table)
        elif identifier == 'eps':
            self.data['name'] = 'eps'
            self.data['real'] = self._spec_data_from_table(table[:, [0, 1]])
            self.data['imag'] = self._spec_data_from_table(table[:, [0, 2]])
        elif identifier == 'eps_r':
            self.data['name'] = 'eps'
            self.data['real'] = self._spec_data_from_table(table)
        elif identifier == 'eps_i':
            self.data['name'] = 'eps'
            self.data['imag'] = self._spec_data_from_table(table)
        else:
            raise ValueError("tabulated data of " +
                             "kind {} not supported".format(identifier))
""", """        else:
            match identifier:
                case 'n' | 'k' as part:
                    kind, columns = 'nk', {'real' if part == 'n' else 'imag': table}
                case 'eps':
                    kind, columns = 'eps', {'real': table[:, :2], 'imag': table[:, ::2]}
                case 'eps_r':
                    kind, columns = 'eps', {'real': table}
                case 'eps_i':
                    kind, columns = 'eps', {'imag': table}
                case _:
                    raise ValueError("tabulated data of " +
                                     "kind {} not supported".format(identifier))
            self.data['name'] = kind
            for part, column in columns.items():
                self.data[part] = self._spec_data_from_table(column)
"""))
ref('i-yaml-write', (I, """        datasets = []

        for dataset in self.file_dict['Datasets']:
            if ("constant" in dataset['DataType'] and
                    self.ignore_constant):
                continue
            datasets.append(dataset)
        if len(datasets) < 1:
""", """        datasets = list(self.file_dict['Datasets'])
        if self.ignore_constant:
            datasets = [dataset for dataset in datasets
                        if "constant" not in dataset['DataType']]
        if not datasets:
"""), (I, """            md = self.file_dict['MetaData'][key]
            if key in Writer.KEY_ALIASES:
                yaml_dict[Writer.KEY_ALIASES[key]] = md
            else:
                yaml_dict[key] = md
""", """            yaml_dict[Writer.KEY_ALIASES.get(key, key)] = self.file_dict['MetaData'][key]
"""), (I, """            for spec_key in spec_order:
                for key, val in specs.items():
                    if spec_key == key:
                        yaml_spec[spec_key] = val
            for key, val in specs.items():
                if key not in spec_order:
                    yaml_spec[key] = val
""", """            known = [key for key in spec_order if key in specs]
            for key in known + [key for key in specs if key not in spec_order]:
                yaml_spec[key] = specs[key]
"""))
ref('c-interactive-helper', (C, """        if self.config['Interactive'] is False:
            raise ValueError("interactivity disabled in config")
        grid_options = {'editable':False}
        self.qgrid_widget = self.make_qgrid(self.database,
                                            show_toolbar=True,
                                            precision=3,
                                            grid_options=grid_options)
        return self.qgrid_widget

""", """        return self._show_table(editable=False)

    def _require_interactive(self):
        if not self.config['Interactive']:
            raise ValueError("interactivity disabled in config")

    def _show_table(self, editable):
        self._require_interactive()
        options = dict(editable=editable)
        widget = self.make_qgrid(self.database, show_toolbar=True, precision=3,
                                 grid_options=options)
        self.qgrid_widget = widget
        return widget
"""), (C, """        if self.config['Interactive'] is False:
            raise ValueError("interactivity disabled in config")
        grid_options = {'editable':True}
        self.qgrid_widget = self.make_qgrid(self.database,
                                            show_toolbar=True,
                                            precision=3,
                                            grid_options=grid_options)
        return self.qgrid_widget
""", """        return self._show_table(editable=True)
"""), (C, """        if self.config['Interactive'] is False:
            raise ValueError("interactivity disabled in config")
        self.database = self.qgrid_widget.get_changed_df()
""", """        self._require_interactive()
        self.set_database(self.qgrid_widget.get_changed_df())
"""))
ref('c-pathlib', (C, """        self.database.to_csv(os.path.join(self.base_path, self.file_name),
                             index=False, index_label='Index')
""", """        target = Path(self.base_path) / self.file_name
        with target.open('w', newline='', encoding='utf-8') as stream:
            self.database.to_csv(stream, index=False)
"""), (C, """import warnings
""", """import warnings
from pathlib import Path
"""))
ref('c-pathlib-list', (C, """        onlyfiles = [f for f in os.listdir(db_path)
                     if os.path.isfile(os.path.join(db_path, f))]
""", """        onlyfiles = [entry.name for entry in Path(db_path).iterdir()
                     if entry.is_file()]
"""), (C, """import warnings
""", """import warnings
from pathlib import Path
"""))
ref('c-scandir', (C, """        onlyfiles = [f for f in os.listdir(db_path)
                     if os.path.isfile(os.path.join(db_path, f))]
""", """        with os.scandir(db_path) as folder:
            onlyfiles = [entry.name for entry in folder if entry.is_file()]
"""))
ref('c-alias-mask', (C, """        if alias in self.database.loc[:, 'Alias'].values:
            if not self.database.at[index, 'Alias'] == alias:
                raise ValueError("Alias {} ".format(alias) +
                                 "already in use. Failed to " +
                                 "add to catalogue.")

        self.database.at[index, 'Alias'] = alias
""", """        in_use = (self.database['Alias'] == alias).any()
        if in_use and self.database.loc[index, 'Alias'] != alias:
            raise ValueError("Alias {} already in use. ".format(alias) +
                             "Failed to add to catalogue.")
        self.database.loc[index, 'Alias'] = alias
"""))
ref('c-material-query', (C, """            bool_array = self.database.Alias.values == identifier
            bool_list = bool_array.tolist()
            row_index = self.database.index[bool_list]
            if row_index.size == 0:
                raise ValueError("identifier {} does not ".format(identifier) +
                                 "name a valid alias in the " +
                                 "catalogue")
            row = self.database.loc[row_index[0], :]
""", """            matches = self.database[self.database['Alias'] == identifier]
            if matches.empty:
                raise ValueError("identifier {} does not ".format(identifier) +
                                 "name a valid alias in the " +
                                 "catalogue")
            row = matches.iloc[0]
"""))
ref('c-build-plan', (C, """        for module, valid in config_modules.items():
            if valid:
                if module in rebuild or rebuild == 'All':
                    print("Building {}".format(module))
                    db_path = module
                    dir_path = os.path.join(self.base_path, db_path)
                    read_function = all_modules[module]
                    dframe = read_function(dir_path)
                    df_new = pd.concat([df_new, dframe], sort=False,
                                       ignore_index=True)
                else:
                    dframe = df[df.Module == module]
                    df_new = pd.concat([df_new, dframe], sort=False,
                                       ignore_index=True)

            else:
                if module in rebuild:
                    raise ValueError("Tried to rebuild module" +
                                     "{}".format(rebuild) +
                                     ", however this module is disabled" +
                                     " in the configuration.")
        return df_new
""", """        for module in config_modules:
            selected = module in rebuild
            if not config_modules[module]:
                if selected:
                    raise ValueError("Tried to rebuild module" +
                                     "{}".format(rebuild) +
                                     ", however this module is disabled" +
                                     " in the configuration.")
                continue
            if not selected and rebuild != 'All':
                dframe = df.loc[df['Module'].eq(module)]
            else:
                print(f"Building {module}")
                dframe = all_modules[module](os.path.join(self.base_path, module))
            df_new = pd.concat((df_new, dframe), ignore_index=True)
        return df_new
"""))
ref('f-lookup', (F, """    user_dir = _get_user_config_dir()
    file_path = os.path.join(user_dir, 'config.yaml')
    if os.path.isfile(file_path):
        return user_dir
    pkg_dir = _get_package_dir()
    file_path = os.path.join(pkg_dir, 'config.yaml')
    if os.path.isfile(file_path):
        return pkg_dir
""", """    for locate in (_get_user_config_dir, _get_package_dir):
        candidate = locate()
        if os.path.isfile(os.path.join(candidate, 'config.yaml')):
            return candidate
"""))
ref('f-user-dir', (F, """    if not os.path.exists(config_dir):
        os.makedirs(config_dir)
    return config_dir
""", """    os.makedirs(config_dir, exist_ok=True)
    return config_dir
"""))
# ---- numbers and library calls that say nothing about the data
ref('n-ints', (M, """    def print_reference(self):
""", """    CODES = (7, 11, 13, 17, 19, 23, 29, 31, 37)

    def print_reference(self):
"""))
ref('n-ints2', (M, """    def print_reference(self):
""", """    CODES = (41, 53, 67, 101, 113, 127, 257, 499, 997)

    def print_reference(self):
"""))
ref('n-ints3', (M, """    def print_reference(self):
""", """    CODES = (1021, 1103, 2003, 2999, 3331)

    def print_reference(self):
"""))
ref('n-ints4', (M, """    def print_reference(self):
""", """    CODES = (5003, 7001, 9973, 12007, 17001)

    def print_reference(self):
"""))
ref("n-dispatch", (S, """    def standardise_values(self, values):
""", """    @functools.singledispatch
    def _ignored(value):
        return value

    @_ignored.register(int)
    def _(value):
        return float(value)

    def standardise_values(self, values):
"""), (S, """import numpy as np
""", """import functools
import numpy as np
"""))
