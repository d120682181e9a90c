# -*- coding: utf-8 -*-
"""generates /verif/properties.jsonl and /verif/MANIFEST.json.

A property is claimed when /verif/checks/<id>.py exists.
"""
import json
import os
import importlib
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None,
         na=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={'over': over.split(), 'text': qtext},
                  why_tests_cant=why,
                  anchors={'files': files,
                           'mechanism': [{'name': a, 'where': b}
                                         for a, b in mech],
                           'observe_at': observe or []},
                  na=na))


PH = 'quantas/utils/physics/'
IO = 'quantas/IO/'

# ---------------------------------------------------------------- units
prop('U01', 'Unit conversions are exact, invertible and consistent',
     'Converting a temperature, energy, pressure, frequency, length or volume '
     'between any two supported units multiplies (or shifts, for '
     'temperatures) it by the ratio of the SI sizes of the two units, so that '
     'converting back, or going through a third unit, gives the same value. '
     'Every documented name of a unit is accepted, a conversion never '
     'modifies the data it receives, and an unknown unit is refused.',
     'inputs configurations',
     'every ordered pair and triple of supported units, every real value, '
     'scalar or array',
     'the existing tests convert a handful of literal values for a few pairs',
     [PH + 'units.py'],
     [('conversion factors relative to an SI anchor', PH + 'units.py')])
prop('U02', 'Energy densities and pressures convert consistently',
     'Converting an energy per volume into a pressure, for any energy, length '
     'and pressure unit, gives the pressure of the same physical magnitude, '
     'and the reverse conversion undoes it. The data passed in are not '
     'changed and integers are accepted.',
     'inputs configurations',
     'every combination of energy, length and pressure unit; every real or '
     'integer value, scalar or array',
     'the tests check one or two numbers in one unit system',
     [PH + 'units.py'],
     [('energy_to_pressure / pressure_to_energy', PH + 'units.py')])

# ---------------------------------------------------------------- harmonic
prop('H01', 'Helmholtz energy equals internal energy minus T times entropy',
     'For every mode and for every weighted set of modes, at every '
     'temperature and volume, the vibrational Helmholtz free energy equals '
     'zero-point plus thermal energy minus temperature times entropy; the '
     'total free energy and the total internal energy add the static energy '
     'to these.',
     'inputs',
     'every temperature >= 0, every real frequency (also negative or zero), '
     'weight and static energy',
     'tests compare single numbers; the identity must hold for any spectrum',
     [PH + 'statistical_mechanics.pyx'],
     [('mode functions', PH + 'statistical_mechanics.pyx')])
prop('H02', 'Vibrational thermodynamic functions are those of an oscillator',
     'Each thermodynamic function of a mode equals the closed form of the '
     'quantum harmonic oscillator, is the right temperature derivative of the '
     'free energy (entropy, heat capacity), and vanishes for modes of zero or '
     'negative frequency and, except the zero-point part, at zero '
     'temperature. Entropy and heat capacity are never negative and the heat '
     'capacity never exceeds the classical limit.',
     'inputs',
     'every frequency, temperature and weight within the bounds',
     'tests compare a few numbers at a few temperatures',
     [PH + 'statistical_mechanics.pyx'],
     [('ho_* mode functions', PH + 'statistical_mechanics.pyx')])
prop('H03', 'Thermodynamic totals are weighted sums, independent of threads',
     'The properties of a phonon set are the weighted sums of those of its '
     'modes, volume by volume and temperature by temperature; splitting, '
     'permuting or re-weighting the set changes the results accordingly and '
     'nothing else. No schedule of the parallel loops and no earlier call '
     'influences them, and the input arrays are not modified.',
     'inputs schedules histories',
     'every array shape up to the bound, all frequencies and weights, every '
     'thread schedule of the loops, repeated calls',
     'tests use one data set and one schedule',
     [PH + 'statistical_mechanics.pyx'],
     [('prange loops over temperatures', PH + 'statistical_mechanics.pyx')])
prop('H04', 'The harmonic calculation turns an input file into right results',
     'For a well formed input file, in any of the supported energy, frequency '
     'and temperature units, the harmonic-approximation calculation gives, '
     'at each requested temperature and each volume, the properties of the '
     'weighted (normalised) phonon spectrum in the requested energy unit. '
     'Only relative weights matter, and calculations done in one session do '
     'not influence each other.',
     'inputs configurations histories',
     'every numeric content of the input file, every unit combination',
     'no test runs the calculator; unit mix-ups and normalisation errors need '
     'combinations no sample covers',
     ['quantas/harmonic/harmonic.py', IO + 'qha_reader.py'],
     [('HACalculator.run', 'quantas/harmonic/harmonic.py'),
      ('QHAInputFileReader', IO + 'qha_reader.py')])
prop('H05', 'Temperature and pressure grids are what the user asked for',
     'A requested range (minimum, maximum, step) of temperature or pressure '
     'gives the grid minimum, minimum+step, ... containing the maximum when '
     'it lies on the grid and nothing beyond it.',
     'inputs',
     'every minimum, step > 0 and maximum',
     'off-by-one grid points only appear for particular combinations of '
     'range and step',
     ['quantas/harmonic/harmonic.py', 'quantas/qha/qha.py'],
     [('temperature/pressure setters', 'quantas/harmonic/harmonic.py')])

# ---------------------------------------------------------------- EoS
prop('E01', 'Each P-V equation of state reproduces its own parameters',
     'For every formulation and order, volume or axial data, the pressure at '
     'the reference volume is the reference pressure, the bulk (or linear) '
     'modulus there is K0, its first pressure derivative is K\' and the second '
     'is K\'\'; the parameters implied by a lower order are the ones the '
     'formula gives.',
     'inputs configurations',
     'every K0, V0 > 0, every K\', K\'\', all formulations and orders',
     'tests evaluate one parameter set at a few points',
     ['quantas/eosfit/utils/pv_eos.py'],
     [('pressure formulations', 'quantas/eosfit/utils/pv_eos.py')])
prop('E02', 'Equation-of-state curves are the published closed forms',
     'The pressure evaluated for a formulation and order equals the published '
     'equation for every volume, and fixing a higher-order parameter at its '
     'implied value gives the lower-order curve.',
     'inputs configurations',
     'every volume and parameter set where the formula is defined',
     'a wrong coefficient away from the reference volume escapes a sampled '
     'comparison with loose tolerance',
     ['quantas/eosfit/utils/pv_eos.py'],
     [('pressure formulations', 'quantas/eosfit/utils/pv_eos.py')])
prop('E03', 'Energy and pressure equations of state are consistent',
     'For each energy-volume equation of state the pressure reported for a '
     'fit is minus the volume derivative of the fitted energy curve, the '
     'energy at the equilibrium volume is the energy minimum, and its '
     'curvature gives the bulk modulus and its derivative. What the fit '
     'returns is what the optimiser found for the user\'s data, and '
     'uncertainties are the square roots of the covariance diagonal.',
     'inputs configurations',
     'every parameter set and volume within the domain of the formula',
     'tests compare one fit with stored numbers',
     ['quantas/qha/utils/ev_eos.py'],
     [('EnergyEOS', 'quantas/qha/utils/ev_eos.py')])
prop('E04', 'An EoS fit optimises exactly what the user asked for',
     'The fit hands the optimiser the user\'s data, weights '
     'derived from the supplied uncertainties, the chosen formula and the '
     'user\'s starting values, leaves fixed parameters alone, and reports the '
     'optimised values with their uncertainties against the right names. A '
     'fit does not change the inputs it received or influence a later fit.',
     'inputs configurations histories',
     'every data set of the bounded size, every combination of uncertainties, '
     'formulation, order, and fixed/free parameters',
     'combinations of options are far too many to sample',
     ['quantas/eosfit/utils/pv_eos.py'],
     [('EOS.fit', 'quantas/eosfit/utils/pv_eos.py')])
prop('E05', 'EoS input files are read column by column as declared',
     'Every quantity of an EoS input file is stored under the keyword that '
     'declares its column, whatever the order and selection of columns, '
     'comments and blank lines; missing mandatory data, rows that do not '
     'match the declared columns and incomplete files are reported as an '
     'error, never read in part. Reading one file never affects another.',
     'inputs histories',
     'every admissible set and order of columns, every numeric content',
     'tests read two or three example files',
     [IO + 'eos_reader.py'],
     [('EoSInputFileReader', IO + 'eos_reader.py')])

# ---------------------------------------------------------------- SOEC
SO = 'quantas/soec/utils/soec_obj.py'
prop('S01', 'Elastic-constants input files are read as written or refused',
     'The reader of second-order elastic constants gives the symmetric 6x6 '
     'matrix written in the file whether it lists the upper triangle, the '
     'lower triangle or the complete matrix, with the description on the '
     'first line (whatever its text) and the density if present. Matrices '
     'that are ragged, incomplete, not numeric or not symmetric are refused '
     'with an error message. Reading one file never affects another.',
     'inputs histories configurations',
     'every numeric content, layout, description, and defect position; '
     'every sequence of two readers',
     'tests read two example files; the layouts and the positions of a '
     'defect are too many to sample',
     [IO + 'soec_reader.py'],
     [('SOECInputFileReader', IO + 'soec_reader.py')])
prop('S02', 'Voigt matrices and elastic tensors describe the same solid',
     'The fourth-rank stiffness and compliance tensors built from a Voigt '
     'matrix have the components defined by the Voigt convention (with the '
     'factors 1/2 and 1/4 on the compliances), the compliance is the inverse '
     'of the stiffness, and their double contraction is the symmetric '
     'identity. Two solids never share data and a singular matrix is '
     'refused.',
     'inputs histories',
     'every stiffness matrix, all 81 components',
     'a misplaced index only shows for low-symmetry tensors in particular '
     'directions',
     [SO], [('SOEC.C_ijkl, SOEC.S_ijkl', SO)])
prop('S03', 'Polycrystalline averages are the Voigt, Reuss and Hill ones',
     'Voigt and Reuss bulk and shear moduli are the invariants of the '
     'stiffness and compliance tensors, Hill values are their means, '
     "Young's modulus and Poisson's ratio follow from them by isotropic "
     'elasticity, wave velocities satisfy rho Vp^2 = K + 4G/3 and rho Vs^2 = '
     'G, the Reuss average never exceeds the Voigt one, and they coincide '
     'for isotropic solids.',
     'inputs',
     'every stiffness matrix and density',
     'compensating errors between entries are invisible in the high-symmetry '
     'examples',
     [SO], [('SOEC.averages, SOEC.isotropic_velocities', SO)])
prop('S04', 'Directional elastic properties are those of the elastic tensor',
     "Young's modulus, linear compressibility, shear modulus and Poisson's "
     'ratio in any direction (and any transverse direction) equal the '
     'contractions of the compliance tensor with the corresponding unit '
     'vectors, for the general and for the orthorhombic formulae, and the '
     'three wave velocities are the ordered solutions of the Christoffel '
     'equation for that direction.',
     'inputs configurations',
     'every direction and every elastic tensor',
     'the formulae contain 81 terms; a wrong one changes the value only in '
     'directions off the symmetry planes',
     [SO], [('directional properties', SO)])

prop('S05', 'Extremes of elastic properties are attained where reported',
     'The maximum and minimum reported for an elastic property are the '
     'values of that property at the axes reported next to them, these axes '
     'are unit vectors (and perpendicular where there are two), the maximum '
     'is not smaller than the minimum, and the anisotropy is their ratio '
     '(infinite when the property changes sign or vanishes). For two-angle '
     'properties shown on planes and spheres, the values are those of the '
     'best transverse direction, separated by sign where necessary.',
     'inputs configurations',
     'every elastic tensor and every direction the optimiser may return',
     'the reported extremes of the examples cannot tell a wrong axis, sign '
     'or angle convention from a right one',
     [SO, 'quantas/soec/soec.py'],
     [('SOEC.get_linear_compressibility and others', SO)])
prop('S06', 'Mechanical stability decides whether the analysis completes',
     'The elastic analysis completes if and only if all six eigenvalues of '
     'the stiffness matrix are positive; it reports these eigenvalues, '
     'refuses unstable or singular tensors with an error, reports velocities '
     'only if a density is known, and never lets one analysis influence '
     'another.',
     'inputs histories',
     'every stiffness matrix within the bounds, with or without density',
     'tests run stable examples only',
     ['quantas/soec/soec.py', SO],
     [('SOECCalculator.run', 'quantas/soec/soec.py')])
prop('S07', 'The crystal class of an elastic tensor is recognised',
     'The crystal system reported for a stiffness matrix is the highest one '
     'whose symmetry relations among the elastic constants the matrix '
     'obeys, within the stated tolerance.',
     'inputs',
     'every elastic tensor of each class, with generic or coinciding '
     'constants',
     'tests cover one mineral for some classes',
     ['quantas/soec/utils/symmetry.py'],
     [('crystal system rules', 'quantas/soec/utils/symmetry.py')])
prop('S08', 'Seismic waves solve the Christoffel equation',
     'For every direction the phase velocities and polarisations are the '
     'ordered solutions of the Christoffel equation of the tensor and '
     'density, group velocities are the gradients of phase velocities, the '
     'power-flow angle and the enhancement factor follow from them, relative '
     'velocities are referred to those of the isotropic aggregate, and a '
     'direction given as a vector or as two angles means the same.',
     'inputs',
     'every elastic tensor, density and direction',
     'the examples have high symmetry, for which wrong indices cancel',
     ['quantas/seismic/utils/seismic_obj.py'],
     [('Christoffel and derivatives',
       'quantas/seismic/utils/seismic_obj.py')])
prop('S09', 'Elastic results on file are the computed ones',
     'The results file of an elastic analysis holds every computed quantity '
     'in its declared unit, and the text tables exported from it show each '
     'quantity for each direction under its own heading, once and in order, '
     'in a file named after the results file; an existing table is overwritten only when confirmed.',
     'inputs configurations histories',
     'every content of the results, every selection of exported quantities',
     'no test exports results; swapped columns or missing rows are silent',
     ['quantas/soec/soec.py', 'quantas/soec/utils/export.py',
      'quantas/soec/utils/table.py'],
     [('SOECCalculator.export_hdf5', 'quantas/soec/soec.py'),
      ('SOECExport', 'quantas/soec/utils/export.py')])

# ---------------------------------------------------------------- QHA
QH = 'quantas/qha/qha.py'
prop('Q01', 'Quasi-harmonic results satisfy the thermodynamic identities',
     'In every result of a quasi-harmonic calculation, in every combination '
     'of units: H = U + PV, G = F + PV, the adiabatic bulk modulus is the '
     'isothermal one times Cp/Cv, Cp - Cv is the thermal expansion squared '
     'times V, T and the isothermal bulk modulus, the Grueneisen parameter is '
     'the expansion times the bulk modulus and volume over Cv, and the '
     'thermal expansion is the temperature derivative of the volume at '
     'constant pressure over the volume. At the lowest temperatures, for '
     'zero expansion, and on short temperature grids these stay well '
     'defined.',
     'inputs configurations',
     'every value of the interpolated quantities and volumes, every unit '
     'combination, every temperature and pressure of the grid',
     'the tests compare one material at one grid with stored numbers',
     [QH, PH + 'thermodynamics.py', PH + 'constants.py'],
     [('QHACalculator.run', QH)])
prop('Q02', 'The equilibrium volume minimises the Gibbs energy',
     'At every temperature and pressure of the grid the reported volume is a '
     'stationary minimum of the Helmholtz energy plus PV inside the sampled '
     'range, the reported isothermal bulk modulus is the volume times the '
     'second derivative of the Helmholtz energy there, and its pressure '
     'derivative is the derivative of that; for the polynomial, for both '
     'schemes, and for every equation of state (which starts from the '
     'minimum of the data). Results do not depend on the units of the input.',
     'inputs configurations',
     'every energy and frequency of the sampled volumes, every unit, '
     'polynomial degree and scheme',
     'the tests have one smooth free-energy curve with one minimum',
     [QH, 'quantas/qha/utils/ev_eos.py', 'quantas/utils/math/polynomials.py',
      'quantas/utils/math/derivative.py'],
     [('QHACalculator.minimize_volume', QH),
      ('EVEoS', 'quantas/qha/utils/ev_eos.py')])
prop('Q03', 'Quasi-harmonic properties are those of the equilibrium volume',
     'Zero-point energy, thermal energy, internal energy, entropy, heat '
     'capacity and Helmholtz energy reported at a temperature and pressure '
     'are, with the "td" scheme, the harmonic properties of the sampled '
     'volumes interpolated at the equilibrium volume, and with the "freq" '
     'scheme the harmonic properties of the modes interpolated at the '
     'equilibrium volume, summed over modes and q points with their weights, '
     'in the requested units; at absolute zero they have their limits.',
     'inputs configurations',
     'every energy, frequency and weight; every scheme, degree and energy '
     'unit; several temperatures and pressures at once',
     'the tests look at one material, whose modes and weights hide swapped '
     'indices or wrong weights of small contributions',
     [QH, PH + 'statistical_mechanics.pyx',
      'quantas/utils/math/polynomials.py'],
     [('run_thermodynamics_interpolation', QH),
      ('run_frequency_interpolation', QH)])

prop('Q04', 'Results files and tables hold the computed properties',
     'The results file of a harmonic or quasi-harmonic calculation holds '
     'every computed property with its description and the unit it is '
     'expressed in, the grid, the job name and the settings; the table '
     'exported from it shows, for the selected property and from the loaded '
     'file, one value per grid point in its place, with the unit, in a file '
     'named after the results file; an '
     'existing table is overwritten only when confirmed; other files are '
     'refused.',
     'inputs configurations histories',
     'every value, unit, property, history of loaded files',
     'no test writes a results file or a table',
     [QH, 'quantas/harmonic/harmonic.py', 'quantas/qha/utils/export.py',
      'quantas/qha/utils/table.py', 'quantas/harmonic/utils/export.py',
      'quantas/harmonic/utils/table.py'],
     [('QHACalculator.export_hdf5', QH),
      ('HACalculator.export_hdf5', 'quantas/harmonic/harmonic.py'),
      ('QHATableFile.write', 'quantas/harmonic/utils/table.py')])


IC = 'quantas/interfaces/crystal.py'
prop('I01', 'Elastic constants are read as the program printed them',
     'For every CRYSTAL elastic-constant output and every VASP OUTCAR with '
     'elastic moduli, the reader returns the 36 printed constants in GPa in '
     'Voigt order (XX, YY, ZZ, YZ, XZ, XY) and the density, and the SOEC '
     'input file generated from them is read back as the same symmetric '
     'matrix and density within the printed precision; reading a second file '
     'does not change the first; an output without elastic constants, or '
     'with an incomplete or corrupted table of them, is reported as an error.',
     'inputs histories',
     'every printed value, history of files read',
     'tests read one SOEC input file and no output of other programs',
     [IC, 'quantas/interfaces/vasp.py', 'quantas/IO/soec_reader.py'],
     [('CrystalSOECReader', IC),
      ('VASPSOECReader', 'quantas/interfaces/vasp.py')])

prop('I02', 'Phonon data are read as CRYSTAL printed them',
     'For every CRYSTAL frequency output (Gamma point, supercell with or '
     'without phonon dispersion, interpolated Hessian), the reader returns, '
     'per primitive cell, the positive volume, the energy, the number of '
     'atoms, the supercell expansion, the sampled q-points with their '
     'weights, and all the frequencies of every q-point in the printed '
     'order, degenerate modes repeated; incomplete or unrelated files are '
     'reported as errors and never block.',
     'inputs histories',
     'every printed value, cell, expansion, degeneracy pattern',
     'tests read no output of CRYSTAL',
     [IC, 'quantas/utils/physics/__init__.py'],
     [('CrystalPhononReader', IC)])

prop('I03', 'Phonon data are read as phonopy wrote them',
     'For every phonopy mesh file, the reader returns the positive volume '
     'of the primitive cell, the expansion, the weights and coordinates of '
     'the q-points and the frequencies converted from THz to cm^-1, in the '
     'order of the file; files that are malformed or end too early are '
     'reported as an error.',
     'inputs histories',
     'every number in the file',
     'tests read no output of phonopy',
     ['quantas/interfaces/phonopy.py'],
     [('PhonopyReader', 'quantas/interfaces/phonopy.py')])


prop('I04', 'Quasi-harmonic data are read as CRYSTAL printed them',
     'For every CRYSTAL quasi-harmonic output, in whatever order its '
     'geometries were optimized, the reader pairs each volume (positive, per '
     'primitive cell) with its own energy and with the frequencies of every '
     'mode at that volume, for a unit cell or a supercell; reading a second '
     'file does not change the first; too few volumes, restarted and '
     'incomplete calculations are reported as errors.',
     'inputs histories',
     'every printed value, order of the geometries, cell, expansion',
     'tests read no quasi-harmonic output of CRYSTAL',
     [IC, 'quantas/core/reader.py'],
     [('CrystalQHAReader', IC)])

QW = IO + 'qha_writer.py'
prop('Q05', 'Generated quasi-harmonic inputs are read back as collected',
     'The input file generated from a list of CRYSTAL or phonopy outputs, or '
     'from a CRYSTAL quasi-harmonic output, is accepted by the input reader '
     'for every job description and gives back, within the printed '
     'precision and in the order of the list, volumes, energies, number of '
     'atoms, expansion, q-points, weights and frequencies; an input file '
     'written by hand is read as written; missing, malformed or incomplete '
     'files, and numbers of energies, q-points, modes or frequencies that '
     'do not match volumes and atoms, are reported as errors; generators used in the same session do '
     'not share data.',
     'inputs histories',
     'every value, list of files, reference, job description',
     'one test generates the input of a single output',
     [QW, IO + 'qha_reader.py', IC, 'quantas/interfaces/phonopy.py'],
     [('QHAInputCreator', QW), ('QHAInputFileReader', IO + 'qha_reader.py')])


KF = 'quantas/qha/utils/kieffer.py'
prop('Q06', "Kieffer's acoustic contributions derive from one free energy",
     "For any acoustic cutoff frequencies and temperature, the integrands and "
     "the integration limits of Kieffer's model are those of the sine "
     'dispersion (density arcsin^2(x/xi)/sqrt(xi^2 - x^2) over 0..xi), so that '
     'S = -dF/dT and Cv = T dS/dT; every contribution vanishes at T = 0 and '
     'is the sum over the branches; acoustic contributions requested without '
     'acoustic frequencies are reported as an error.',
     'inputs histories',
     'every temperature, frequency and point of the integration interval',
     'no test runs the model',
     [KF, QH],
     [('Kieffer', KF), ('QHACalculator.acoustic', QH)])


EF = 'quantas/eosfit/'
prop('E06', 'An EoS fitting session does what the user answers',
     'In an interactive fitting session every fit uses the selected '
     'structural quantity against pressure, the selected formulation and '
     'order, the starting values entered or accepted by the user (the '
     'automatic guess of the selected data at first, the results of the last '
     'fit once an update is accepted), the parameters the user fixed, and '
     'the uncertainties the user agreed to use; invalid answers are asked '
     'again; changing the equation or the data changes nothing else; each '
     'report gives the values, standard deviations, flags, covariances and '
     'calculated data of its own fit.',
     'histories inputs',
     'every sequence of answers and every data set',
     'no test drives the session',
     [EF + 'eosfit.py', EF + 'utils/interactive.py', EF + 'utils/pv_eos.py'],
     [('EoSFitCalculator.run', EF + 'eosfit.py'),
      ('select_eos', EF + 'utils/interactive.py'),
      ('set_parameters', EF + 'utils/interactive.py')])


prop('C01', 'Commands do what the command line says and lose no file',
     'For every option and input, the commands ha, qha, soec, eosfit, export '
     'and inpgen compute with the units, grids, scheme, degrees and '
     'formulation given on the command line, store the results of their own '
     'input under the documented name (input base name or --outfile), record '
     'in the log every message shown on the screen (which stays empty with '
     '--quiet), never change their input, never overwrite existing results '
     'unless the user confirms, and report unusable input on screen and in '
     'the log without producing or touching results.',
     'inputs histories configurations',
     'every option set, file name and pre-existing file',
     'tests run one option set of some of the commands',
     ['quantas/harmonic/commands/cmd_ha.py', 'quantas/qha/commands/cmd_qha.py',
      'quantas/soec/commands/cmd_soec.py',
      'quantas/eosfit/commands/cmd_eosfit.py',
      'quantas/cmdline/utils/messages.py'],
     [('ha_calculation', 'quantas/harmonic/commands/cmd_ha.py'),
      ('qha_calculation', 'quantas/qha/commands/cmd_qha.py'),
      ('soec_calculation', 'quantas/soec/commands/cmd_soec.py')])


prop('R01', 'Reports of (quasi-)harmonic calculations show what was computed',
     'The report that a harmonic or quasi-harmonic calculation writes on '
     'screen and in the log shows the numbers of its own input and results, '
     'rounded to the digits shown and in the units of its headings: volumes, '
     'energies and the pressures of the static curve; the parameters of the '
     'static equation of state with their uncertainty in brackets on the '
     'last digits; for each pressure and temperature V, thermal expansion, '
     'KT, KS and Cp - Cv (J/mol K); the quality of the fit of each mode and '
     'its rating.',
     'inputs configurations',
     'every value, every unit of the command line, every uncertainty',
     'tests never look at the report',
     [QH, 'quantas/harmonic/harmonic.py', 'quantas/qha/utils/ev_eos.py',
      'quantas/utils/math/fast_math.pyx'],
     [('QHACalculator.report_results', QH),
      ('QHACalculator.report_input_data', QH),
      ('HACalculator.report_input_data', 'quantas/harmonic/harmonic.py')])


prop('P01', 'Figures of the elastic analysis show the computed curves',
     'With polar properties and figures requested, one figure is written for '
     'each computed elastic property, at the requested resolution and next '
     'to the results; on each of the three planes, under the label of that '
     'plane, it draws every computed curve of that property against its '
     'angle, under its own name in the legend and within the visible radius.',
     'inputs configurations',
     'every value of the polar curves, every property, plane, sign of the '
     'lobes, with and without density',
     'no test draws a figure; a swapped plane, curve or legend, or a lobe '
     'cut by the scale, is silent',
     ['quantas/soec/utils/plotting.py', 'quantas/soec/soec.py'],
     [('polar plots', 'quantas/soec/utils/plotting.py'),
      ('SOECCalculator.run', 'quantas/soec/soec.py')])


MT = 'quantas/utils/math/'

prop('M01', 'Numerical helpers fit, evaluate and minimise what they are given',
     'A polynomial fit returns, for one series or for every row of a table '
     '(square tables included), the increasing-power coefficients of the '
     'least-squares polynomial of the requested degree; interpolate evaluates '
     'one-, two- and three-dimensional coefficients at a scalar or an array '
     'row by row; R squared is the explained over the total variance of each '
     'row, 1 for data lying on the polynomial; find_polynomial_minimum '
     'returns all and only the real points where the slope (plus the '
     'addendum) vanishes with positive curvature; derivative is the ratio of '
     'the gradients dY/dX and refuses a single point; vector is the unit '
     'vector of the polar angles; cofactor is the matrix of signed minors.',
     'inputs',
     'every coefficient, ordinate, point, angle and matrix entry, for tables '
     'of up to 6 rows and degrees up to 4 (5 thorough)',
     'tests do not call the helpers',
     [MT + 'polynomials.py', MT + 'fast_math.pyx', MT + 'derivative.py'],
     [('polyfit, interpolate, R_squared, find_polynomial_minimum',
       MT + 'polynomials.py'),
      ('multi_interpolate, multi_R2, vector, cofactor', MT + 'fast_math.pyx'),
      ('derivative', MT + 'derivative.py')])


def main():
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(HERE, 'checks'))
    checks, na = [], []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            q = dict(p)
            q.pop('na')
            f.write(json.dumps(q) + '\n')
    for p in P:
        i = p['id']
        if p['na']:
            na.append({'property': i, 'reason': p['na']})
            continue
        if not os.path.exists(os.path.join(HERE, 'checks', i + '.py')):
            na.append({'property': i, 'reason': 'check not built yet'})
            continue
        m = importlib.import_module(i)
        note = 'Holds for all values within the bounds: %s. Outside: %s. ' \
            'Assumes: %s.' % (m.BOUNDS, m.OUTSIDE, '; '.join(m.ASSUMPTIONS))
        py = '/opt/venv/bin/python /verif/run_check.py ' + i
        checks.append({
            'property': i, 'quick_cmd': py,
            'thorough_cmd': py + ' --thorough',
            'technique': getattr(m, 'TECHNIQUE', 'symbolic execution of the '
                                 'real source with Z3 deciding every '
                                 'assertion, counterexamples replayed'),
            'level': 'model_checking', 'level_note': note})
    man = {'version': 1,
           'setup_cmd': '/opt/venv/bin/python /verif/run_check.py --setup',
           'hooks': {'guard': 'none', 'enable': 'no hooks are used',
                     'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(P), 'properties', len(checks), 'claimed')


if __name__ == '__main__':
    main()
