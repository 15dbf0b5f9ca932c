#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that the text is diffable)"""
import json, os
S="src/dispersion/spectrum.py"; D="src/dispersion/spectral_data.py"; M="src/dispersion/material.py"
I="src/dispersion/io.py"; C="src/dispersion/catalogue.py"; F="src/dispersion/config.py"
P="src/dispersion/scripts/setup_dispersion.py"; N="src/dispersion/__init__.py"
P_=[]
def p(id,title,statement,over,text,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P_.append({"id":id,"title":title,"statement":statement,
               "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Spectral conversions obey the vacuum light relations and compose",
  "For every supported quantity (wavelength, frequency, energy, angular frequency, wavenumber) and unit, converting spectral values to any other supported quantity and unit gives the values related by lambda = c/f = h*c/E = 2*pi*c/omega = 2*pi/k and the metric prefixes; any rounding is no coarser than 1e-15 m in wavelength or 1e-9 eV in energy. "
  "Converting there and back, or through intermediate quantities, therefore returns the original values. "
  "After an in-place conversion the values, the quantity, the unit and all later conversions and range checks still describe the same physical spectrum.",
  ["inputs","histories"],"all source (quantity, unit) x target (quantity, unit) pairs, all spectral values, any chain of conversions",
  "Tests compare a few points of the conversion to metres; four of the five reverse conversions are called without any assertion, and no round trip is checked.",
  [S],[("per-quantity conversion functions to and from metres",S),("convert_from / convert_to dispatch",S)],
  ["return value of convert_to","standard_rep"],[("standard_rep","the spectrum in metres","Spectrum")])
p("C02","Conversion is elementwise and the same for scalars, lists and arrays",
  "A spectrum gives the same converted number at the same position whether its values are supplied as a float, a list, a tuple, an integer array or a float array of any length. "
  "Exactly zero converts to infinity and infinity to zero where the relation is reciprocal; apart from the rounding allowed in C01, no other finite value becomes zero, infinite or truncated to an integer.",
  ["inputs"],"all value containers, dtypes, lengths and magnitudes, including 0 and inf",
  "Only arrays of ordinary magnitude and float dtype are tested; the magnitude, dtype and container quantifiers are unbounded.",
  [S],[("safe_inverse (scalar and array variants)",S),("Spectrum constructor",S)],["convert_to","standard_rep"])
p("C03","Unit vocabulary is total, unambiguous and case-insensitive",
  "Every documented quantity and unit name, in any letter case and with every accepted alias, can be used to construct a spectrum, as a conversion target, to be range-checked and to be displayed as an axis label, and always means the same physical unit. "
  "A name that is unknown, or a unit that does not belong to the quantity, is rejected with ValueError, both at construction and as a conversion target.",
  ["inputs","configurations"],"all names x aliases x letter cases x operations, and all mismatched pairs",
  "Tests use one spelling per quantity and never a wrong pair; the product of names and operations is not sampled.",
  [S],[("SPECTRUM_TYPES / UNIT_TYPES / DISPLAY_NAMES tables",S),("standardise_unit",S)],["Spectrum()","convert_to","get_type_unit_string","contains"])
p("C04","Data is never evaluated outside its valid range",
  "Evaluating constant, tabulated, model or extrapolated data, or a material made of them, at a spectrum with any value outside the valid range of any part raises ValueError instead of returning a number; position, container, quantity and unit of the spectrum do not matter. "
  "A spectrum whose values all lie inside the range, bounds included, is never rejected, and containment of one spectrum in another is decided by the extreme values of both.",
  ["inputs"],"all data kinds, all orderings of requested values relative to the bounds, all units",
  "One containment test with an inside spectrum exists; no test evaluates out of range, and orderings are not enumerated.",
  [S,D,M],[("Spectrum.contains",S),("evaluate / preprocess of every data class",D),("get_nk_data / get_permittivity",M)],["get_nk_data","get_permittivity","evaluate"])
p("C05","Queries are pure and repeatable",
  "Evaluating a material or data object, converting without in_place, asking for valid ranges or sample spectra, extrapolating, combining materials into an effective medium and preparing a material for writing never change the spectra, arrays, dictionaries or materials that the caller passed in. "
  "The same query on the same object gives the same answer whatever was evaluated, built or converted before it; an answer already returned is not changed by later queries, and changing a returned array changes no other answer. Materials created separately are independent: changing the metadata, defaults or options of one shows in no other.",
  ["inputs","histories"],"all query operations, all argument kinds, all earlier histories",
  "Tests evaluate once per object and never look at their arguments afterwards.",
  [S,D,M,I],[("copying instead of in-place conversion",D),("fresh Spectrum in get_nk_data",M)],["caller-held Spectrum.values/unit","caller-held arrays"])
p("C06","Refractive index and permittivity of a material are consistent",
  "For every material and spectrum the permittivity is the square of the complex refractive index, and the refractive index is the principal square root of the permittivity; real and imaginary parts are n + ik respectively eps_r + i*eps_i, with the result always complex. "
  "The two queries accept the same arguments with the same meaning (a spectrum object, or raw values with quantity and unit, metres by default).",
  ["inputs"],"all material kinds (split or complex, index or permittivity), all spectra",
  "Tests read the refractive index of two materials at one wavelength; permittivity is never queried.",
  [M],[("get_nk_data",M),("get_permittivity",M)],["get_nk_data","get_permittivity"])
p("C07","Every way of defining a material yields the data that was given",
  "A material defined by a fixed n, nk, eps_r or eps, by a table of n, nk, n plus absorption coefficient alpha (in 1/cm, k = alpha*lambda/4pi), or eps, or by a model, evaluates to exactly that quantity in the stated quantity and unit, interpolated with the requested interpolation order, and unspecified imaginary parts are zero. "
  "Giving none or more than one of these sources, a wrongly typed one or a table of the wrong shape is refused with an exception.",
  ["inputs","configurations"],"all ten definition keywords, all tables and units, all combinations of keywords",
  "Tests construct a material from a fixed n and from one model only.",
  [M],[("_parse_args, _process_fixed_value, _process_table, _process_model_dict",M)],["Material()","get_nk_data"])
p("C08","Each dispersion model evaluates its published formula",
  "Sellmeier, Sellmeier-2, Polynomial, RefractiveIndex.INFO, Cauchy, Gases, Herzberger, Retro, Exotic, Drude, Drude-Lorentz, Tauc-Lorentz and Fano data return, for every parameter vector of the model's arity and every in-range spectrum, scalar or array, the value of the published dispersion formula (refractiveindex.info formulas 1-9; Jellison-Modine for Tauc-Lorentz), all supplied terms included. "
  "Lossy permittivity models have non-negative imaginary part.",
  ["inputs"],"all models, all parameter counts and values, all spectra",
  "Tests evaluate Sellmeier once with loose tolerance and Drude once.",
  [D],[("evaluate method of each model class",D)],["evaluate"])
p("C09","Models only work in their native quantity and unit",
  "A model whose coefficients are defined for wavelengths in micrometres (or energies in eV) refuses with ValueError to be built with any other declared quantity or unit, however those are spelled. "
  "When evaluated, the requested spectrum is converted to the native unit first, so the result does not depend on the quantity or unit in which the request is expressed, and each model declares whether it yields n or a complex permittivity.",
  ["inputs","configurations"],"all models x all declared quantities and units x all query units",
  "Two models are constructed in tests, both with the right unit, and queried in one unit.",
  [D],[("required_spectrum_type / required_unit, validate_spectrum_type",D),("preprocess",D)],["model constructors","evaluate"])
p("C10","Effective media follow their mixing rules",
  "The simple, Maxwell-Garnett and Bruggeman media have, at every sampled spectral value, the permittivity given by the respective mixing rule for host, inclusion and filling fraction (Bruggeman: a root of its quadratic with non-negative imaginary part whenever one exists, the '+' root when both or none qualify), so fractions 0 and 1 give the pure constituents for the simple and Maxwell-Garnett rules. "
  "A fraction outside [0, 1], or a Maxwell-Garnett denominator vanishing at any sample, is refused with ValueError; the medium is tabulated over the sampled range and keeps each sample at its own wavelength.",
  ["inputs"],"all constituents, fractions and sample spectra in any unit",
  "Effective media have no test.",[M],[("EffectiveMedium subclasses",M)],["get_permittivity of the medium"])
p("C11","Extrapolation only extends, never alters, the known range",
  "After extrapolating a material, values inside the original range evaluate exactly as before when the spectrum lies wholly inside it, values between the original and the requested bound evaluate to the spline of the requested order through the original data in its own quantity and unit, and everything beyond the requested bound is still refused. "
  "Requests that lie inside the known range, have more than two values, or concern a material with coupled real and imaginary parts are refused, and a refused request leaves the material unchanged.",
  ["inputs","histories"],"all base data, extension targets in any unit, spline orders",
  "Extrapolation has no test.",[D,M],[("Extrapolation class",D),("Material.extrapolate",M)],["extrapolate","get_nk_data"])
p("C12","Reported valid range is the intersection of the parts, in the material's units",
  "The maximum valid range of a material is the interval on which all of its parts are defined, given as [lower, upper] in the material's own default quantity and unit, for split as well as complex data. "
  "It is that of the present data, also after an extrapolation. The suggested sample spectrum lies inside that range whenever the range is finite, and consists of finite positive values in any case.",
  ["inputs"],"all combinations of part ranges and units",
  "Valid ranges are never queried in tests.",[M,D],[("get_maximum_valid_range, get_sample_spectrum",M)],["get_maximum_valid_range","get_sample_spectrum"])
p("C13","YAML material files round-trip",
  "A material made of tabulated (two or more strictly increasing spectral values, linear interpolation) and/or model data that is written to a .yml file and read back evaluates identically (same quantity, unit, valid range, table values of any size and magnitude, model parameters), and reference, comment, name, full name, author, meta comment (printable lines, up to line ends at its end), specification come back unchanged, while additional metadata are stored in the file under their own key. "
  "Writing the same material again gives the same file, also with one Writer after other options, and with refractiveindex.info naming the formulas, ranges and coefficients use that database's keywords and numbers.",
  ["inputs","histories"],"all table sizes and values, all models, all metadata, with and without the ruamel package",
  "No test writes or reads a YAML material file successfully in this environment.",
  [I,M,D],[("Writer._write_yaml_file, Reader._read_yaml_mat_file, _process_mat_dict",I),("dict_repr, prepare_file_dict, collapse_datasets",M)],["Writer.write_file","Material(file_path=)"])
p("C14","Text material files round-trip",
  "A tabulated n, nk or eps material (two or more strictly increasing spectral values, linear interpolation) written to .txt, .csv or .nk and read back evaluates identically, whatever the magnitude of its numbers, and keeps its unit, quantity, reference, author, full name, name, comment (colons included) and meta comment, for single-line texts (as str.splitlines counts lines) without leading blanks (and meta comment lines that do not themselves look like 'keyword:'). "
  "Data that a text file cannot hold (several unrelated tables, models) is refused with an exception instead of being dropped.",
  ["inputs"],"all tables, units, metadata strings and the three extensions",
  "No test writes or reads a text material file successfully in this environment.",
  [I,M],[("Writer._write_text_file, prepend_text_to_file, Reader._read_text_file",I)],["Writer.write_file","Material(file_path=)"])
p("C15","Material files are interpreted as documented",
  "For files in the documented text format and the refractiveindex.info YAML format, each dataset becomes the quantity its type names (tabulated n, k, nk, n_alpha, eps; formula 1-9 and named models), in the unit stated in the file or otherwise the caller's default, several datasets combine, and every metadata keyword (reference, comment, names, author, quantity, unit, valid range) ends up in its own field in any letter case. "
  "Text tables are columns separated by white space (.txt, .nk) or commas (.csv), with header lines starting with # (; for .nk).",
  ["inputs","configurations"],"all files built from the documented keywords, types and units",
  "The tests that read files need data that is not in the repository.",
  [I,M],[("Reader",I),("_process_file_data, _process_table, _process_formula_data",M)],["Material(file_path=)"])
p("C16","Unusable input is refused, never turned into a silent default",
  "A file with an unsupported extension, an unknown dataset type, table kind, formula number or model name, a model without valid range, a missing file, non-numeric table or coefficient entries, a text table whose rows have neither two nor three columns, a YAML document without a data section, or malformed YAML makes loading raise an exception; loading never returns a material that ignores the offending dataset. "
  "Likewise writing to an unsupported extension and building a data object from an unsupported output kind raise.",
  ["inputs"],"all malformed or unsupported inputs of the listed kinds",
  "No test feeds an invalid file or name.",[I,M],[("read_file, read_yaml_file, _process_mat_data_dict",I),("_process_file_data, _process_table, _str_to_class",M)],["Material(file_path=)","Writer.write_file"])
p("C17","Loading data or configuration never executes it",
  "No content of a material file, catalogue, YAML document or configuration can select or run code other than the package's own data classes: YAML is parsed with non-executing loaders only, no evaluation, unpickling, dynamic import or shell call is reachable from reading, and a model name from a file can only instantiate a spectral data class defined by the package.",
  ["inputs","programs"],"all file contents and all call sites reachable from the readers",
  "Absence of a reachable sink for every input is a whole-program fact.",[I,M,C,F],[("read_yaml_file / read_yaml_string",I),("_str_to_class",M)],["reader entry points"])
p("C18","Tabulated data used for interpolation is strictly increasing",
  "Whatever order or duplication the rows of a table in a file have, the table that is used keeps the first row and then, in order, exactly the rows whose spectral value exceeds all kept before, with rows intact; a strictly increasing table is used unchanged.",
  ["inputs"],"all orderings of the rows of a table",
  "No test passes an unsorted table; the orderings are a finite set per length that tests do not enumerate.",
  [I],[("validate_table, fix_table, _str_table_to_numeric",I)],["Material(file_path=)"])
p("C19","An alias names exactly one catalogue entry",
  "Registering an alias that another entry already has is refused and changes nothing, otherwise exactly the addressed entry (by row number in a catalogue with default row labels, or by a one-row selection under any labelling) gets it and every other cell is unchanged; selections of several rows are refused. "
  "Looking up an alias, or a row number, loads the file of that very entry (module folder plus recorded path) with the entry's quantity and unit; an unknown or empty alias raises ValueError.",
  ["inputs","histories"],"all catalogues, row addresses, aliases and registration sequences, any row labelling of the table",
  "The catalogue tests need a network download and do not run.",[C],[("register_alias, get_material",C)],["register_alias","get_material"])
p("C20","Catalogue entries describe their files faithfully",
  "Building a module yields one entry per readable material file of the supported kinds (.txt, .csv, .yml), each with all catalogue columns; the range bounds (lower <= upper) are expressed in the entry's own quantity and unit, the reference index is the material's index at the configured reference spectrum or NaN if that is out of range, and metadata, path and module come from that file. "
  "An unreadable file of the refractiveindex.info module is skipped with a warning without affecting other entries.",
  ["inputs","configurations","fault_sequences"],"all database contents and reference spectra",
  "The catalogue tests need a network download and do not run.",[C],[("read_ri_info_db, _iterate_pages, _read_text_db",C)],["Catalogue(rebuild=...)","get_database"])
p("C21","Rebuilding touches only the selected modules; saving is lossless",
  "A rebuild replaces the entries of the selected enabled modules, keeps all entries (aliases included) of enabled modules that were not selected, and contains nothing of disabled modules; asking for a disabled module is refused. "
  "A catalogue that is saved and opened again has the same entries, columns and order (numbers up to floating-point rounding), with missing reference values as NaN and texts such as 'NA' or empty strings intact, and opening or rebuilding alone does not write the file.",
  ["inputs","histories","configurations"],"all module configurations, rebuild selections and catalogue contents",
  "The catalogue tests need a network download and do not run.",[C],[("Catalogue.__init__, build_catalogue, save_to_file",C)],["Catalogue()","save_to_file"])
p("C22","Configuration is found, defaulted and validated as documented",
  "The user's configuration file takes precedence over the one in the package directory; when neither exists the documented defaults are returned, and importing the package succeeds even if the user's configuration directory does not exist yet. "
  "A written configuration reads back unchanged, the defaults contain every documented setting (Path: the package's folder in the user's configuration directory; File: catalogue.csv; Interactive and WarnMissingPackages off; Modules: UserData and RefractiveIndexInfo enabled and only modules that the catalogue and the installer support; ReferenceSpectrum with Value, SpectrumType and Unit: 632.8 nm wavelength), each returned configuration is independent of the others, and validation refuses every setting of a wrong type and a non-existing database path.",
  ["configurations","inputs"],"all presence/absence combinations of files and directories, all wrong types per setting, Linux and Windows",
  "Tests only call default_config in one environment.",[F,N],[("_get_user_config_dir, _get_config_dir, get_config, validate_config",F),("package import",N)],["get_config","validate_config","import dispersion"])
p("C23","The installer records exactly what the user confirmed",
  "Whatever is typed at its prompts, the setup script uses only a confirmed absolute root path and a confirmed valid catalogue name (empty input meaning the default; y/yes and n/no being the answers), asks again otherwise, always installs UserData, marks a module enabled only if it was accepted and is actually present, stores that configuration in the user's configuration directory, and rebuilds the catalogue only when told to. Input that ends before the name is confirmed leaves nothing behind. "
  "Declining the final rebuild confirmation of the command line tool leaves the catalogue untouched.",
  ["inputs","histories"],"all sequences of answers and all states of the database folder",
  "The interactive scripts have no test.",[P,C],[("main, ask, get_confirmation, install_modules, install_rii",P),("rebuild_catalogue",C)],["main","written config"])
p("C24","Nothing outside the designated paths is written",
  "Reading, evaluating, validating and cataloguing never create, truncate, rename or delete a file; writing a material, catalogue or configuration touches only the given target (and folders that contain it), and checking whether a catalogue file name is valid leaves no file behind and never touches anything outside its own temporary directory, whatever the name. "
  "Every file the package opens is closed again on all paths, also when reading or writing fails part-way.",
  ["inputs","programs"],"all operations and all file names, including absolute and relative-escape ones",
  "Absence of side effects is not observable in sampled runs.",[I,F,C,P],[("valid_file_name, write_yaml_file, prepend_text_to_file",I),("write_config",F),("save_to_file",C)],["file system"])
p("C25","Results do not depend on locale or hash seed",
  "All text files of the package are read and written as UTF-8 whatever the platform's locale, so non-ASCII metadata survives. "
  "No result, file content or error kind depends on the iteration order of an unordered collection.",
  ["configurations","programs"],"all locales, all hash seeds, all file operations",
  "Tests run under one locale with PYTHONHASHSEED=0.",[I,M,S,C],[("encoding arguments of every open",I),("prefix-free keyword tables",I)],["files","readers"])
p("C26","Material comparison is total and symmetric",
  "Comparing any two materials, however they were created (values, tables, models, files, effective media), or a material with any other object, returns True or False without raising, gives the same answer in both directions, and is False whenever any metadata field (texts or numbers) or the kind of data (index or permittivity) differs.",
  ["inputs"],"all pairs of material kinds and metadata",
  "Equality is not tested.",[M],[("Material.__eq__",M)],["=="])
p("C27","Interpolated values are numerically faithful to the table",
  "At each tabulated spectral value the interpolated data equals the table entry, and between two entries linear interpolation stays between them, up to floating-point rounding.",
  ["inputs"],"all tables and spectral values",
  "Unbounded numeric domain.",[D],[("interp1d",D)],["evaluate"])
p("C28","Conversions are accurate to floating-point precision",
  "Chains of conversions accumulate a relative error of at most a few units in the last place for values of ordinary magnitude.",
  ["inputs"],"all floating-point values and chains","Unbounded numeric domain.",[S],[("conversion functions",S)],["convert_to"])
p("C29","Extrapolated data is physically plausible",
  "Spline extrapolation produces finite values that continue the data smoothly beyond the bounds.",
  ["inputs"],"all data and spline orders","Unbounded numeric domain in a third-party routine.",[D],[("splrep/splev",D)],["evaluate"])
p("C30","Plots and printed texts show exactly the material's data",
  "plot_nk_data and plot_permittivity draw two curves on the axes given (or on new ones): the real part labelled n or eps_r and the imaginary part labelled k or eps_i, exactly as the material evaluates at the plotted spectral values, against these values in the requested quantity and unit (by default the material's own), which the x axis names; a single value is drawn as horizontal lines. "
  "Without values given the whole valid range is drawn, in any unit, and is never refused because of rounding for display. The values passed and the material do not change. print_reference and print_comment print the ASCII characters of the text in order and never raise, also where a file leaves them empty or gives a number.",
  ["inputs","configurations"],"all material kinds, requested units, value containers and lengths, all texts",
  "Nothing is plotted or printed by the tests.",[M],[("_plot_data / _prepare_plot_data",M),("utf8_to_ascii",M)],["artists and labels of the axes","printed text"])
p("C31","Removing absorption removes the loss and nothing else",
  "After remove_absorption the imaginary part (k, or eps_i for permittivity data) of a material with separate real and imaginary parts is exactly zero wherever the real part is known, the real part and the refusal outside its range are unchanged, and the valid range is that of the real part, even where the removed loss was known in a smaller range only. "
  "This stays so when the material is extrapolated, mixed, or written to a file and read back. A material with coupled complex data keeps its values, and no other material changes, even one that shares the data.",
  ["inputs","histories"],"all material kinds, all ranges of the parts, all later operations",
  "remove_absorption is not tested.",[M],[("remove_absorption",M)],["get_nk_data","get_permittivity","get_maximum_valid_range"])
p("C32","Interactive editing shows and takes over exactly the catalogue table",
  "With interactive mode enabled, viewing shows the current catalogue table read-only and editing shows it editable; save_interactive makes exactly the edited table the catalogue, set_database exactly the given one, and nothing reaches the disk before save_to_file, which stores every cell. "
  "With interactive mode disabled all three operations raise ValueError and change nothing, and qgrid is not needed; enabled without qgrid installed, opening the catalogue is refused.",
  ["inputs","histories","configurations"],"all tables and edits, any number of edit and save rounds",
  "No test enables interactive mode.",[C],[("view_interactive, edit_interactive, save_interactive",C),("get_database / set_database / save_to_file",C)],["the widget's table and options","get_database","catalogue file"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P_:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P_))
