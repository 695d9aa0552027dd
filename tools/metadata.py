"""The properties: source of properties.jsonl and of the checks' entries."""

TECH = 'deterministic simulation with fault injection: '


def define(prop):
    prop('P01', 'Thermodynamic kernels: same numbers under every thread schedule',
         'The parallel thermodynamic and interpolation functions return, for every input grid, the values of '
         'their sequential mathematical definition, whatever the number of threads and however the threads '
         'interleave. Every cell of the result is written exactly once from its own inputs, and the inputs are '
         'left unchanged.',
         ['schedules', 'inputs', 'configurations'],
         'all interleavings of all team sizes over all grids (temperatures including 0, zero and imaginary '
         'frequencies, any number of volumes, q-points, bands)',
         'The tests call each function once on one grid with whatever schedule the machine happens to give; a '
         'race, a shared temporary or a wrong partition shows only under some interleavings and sizes.',
         ['quantas/utils/physics/statistical_mechanics.pyx', 'quantas/utils/physics/thermodynamics.pyx',
          'quantas/utils/math/fast_math.pyx', 'quantas/utils/math/polynomials.py'],
         [('prange loops with private accumulators', 'statistical_mechanics.pyx'),
          ('per-cell writes', 'thermodynamics.pyx, fast_math.pyx')],
         ['zero_point_energy', 'thermal_energy', 'entropy', 'vibrational_free_energy',
          'isochoric_heat_capacity', 'internal_energy', 'free_energy', 'enthalpy', 'gibbs'],
         technique=TECH + 'the compiled kernels run on a simulated OpenMP team, preempted at seeded memory accesses',
         note='Seeded search over thread schedules; sequentially consistent interleavings at memory-access grain.')

    prop('P02', "Readers report their file's contents, whatever else is or was read",
         'A reader that accepts a file reports exactly the data that file states (job, units, volumes, energies, '
         'frequencies, weights, matrices, uncertainties), in the order and with the signs the file gives. What a '
         'reader reports is independent of any other file read before, after or concurrently in the same process '
         'and does not change later, and reading any file ends.',
         ['histories', 'schedules', 'inputs'],
         'all sequences of reads of valid and damaged files of the eight formats, held readers, and all '
         'interleavings of concurrent reads',
         'The tests read one file per format per process, so data shared between readers, stale values of an '
         'earlier file and thread interleavings are never exercised.',
         ['quantas/core/reader.py', 'quantas/IO/qha_reader.py', 'quantas/IO/soec_reader.py',
          'quantas/IO/eos_reader.py', 'quantas/interfaces/crystal.py', 'quantas/interfaces/vasp.py',
          'quantas/interfaces/phonopy.py'],
         [('per-reader data dictionaries', 'load() of each reader')],
         ['public properties of the readers'],
         state=[('_data', 'collected data of one file', 'quantas/core/reader.py')],
         technique=TECH + 'seeded histories and thread schedules of reads against a pristine process and the generated contents',
         note='Thread switches at source lines; files from a generator of eight formats.')

    prop('P03', 'Jobs run in one process do not affect one another',
         'What a command or a calculator shows, reports and stores depends only on its own options, input and '
         'answers: after any sequence of earlier commands and calculator runs in the same process, or '
         'interleaved with others step by step or by threads, it equals what it gives alone in a fresh process. '
         'Results and messages of a finished or still-held job do not change when another job runs.',
         ['histories', 'schedules', 'configurations'],
         'all sequences of commands (ha, qha, soec, eosfit, inpgen, export) with any options, and all '
         'interleavings of calculator steps',
         'Each test runs a single calculator once in a fresh process; shared class-level state, leaked options '
         'and global numeric settings appear only over histories of several jobs.',
         ['quantas/core/calculator.py', 'quantas/harmonic/harmonic.py', 'quantas/qha/qha.py',
          'quantas/soec/soec.py', 'quantas/eosfit/eosfit.py', 'quantas/harmonic/utils/export.py',
          'quantas/qha/utils/export.py', 'quantas/soec/utils/export.py', 'quantas/IO/qha_writer.py',
          'quantas/IO/soec_writer.py'],
         [('per-instance results and settings', 'constructors of calculators, exporters and input creators')],
         ['console', 'log', 'HDF5 results', 'exported tables', 'calculator.results'],
         technique=TECH + 'seeded histories of whole CLI sessions and interleaved calculator steps/threads against pristine processes',
         note='Console, log and file contents compared byte for byte / dataset for dataset under a frozen clock.')

    prop('P04', 'Incomplete or inconsistent input never yields results',
         'An input file that lost data - cut at any byte, with lines, values, bands, q-points or columns missing '
         'or replaced, empty, or of another format - is refused with a message, or is used with exactly the '
         'values it still states. No result is reported or stored that rests on values the file does not contain, '
         'such as zeros standing in for missing frequencies or matrix elements.',
         ['inputs', 'crash_points', 'fault_sequences'],
         'all truncations and losses of all inputs of ha, qha, soec, eosfit and of the ab initio outputs given to inpgen',
         'The tests read a few intact files and one deliberately broken one; a torn or partially copied file can '
         'end at any byte.',
         ['quantas/IO/qha_reader.py', 'quantas/IO/soec_reader.py', 'quantas/IO/eos_reader.py',
          'quantas/interfaces/crystal.py', 'quantas/interfaces/vasp.py', 'quantas/interfaces/phonopy.py'],
         [('completeness checks', 'load()/_check() of each reader'), ('error handling', 'the commands')],
         ['error/completed of readers', 'exit of the commands', 'result files'],
         technique=TECH + 'crash images of the process writing the input (torn and lost writes, lost sectors) fed to whole sessions; independent strict parser as oracle',
         note='Oracle: an independent parser of each format decides what the damaged file still states.')

    prop('P05', 'A failing disk makes a session fail visibly, or changes nothing',
         'If any read, write, open, truncate, rename or close of a session fails, is short, is interrupted or hits '
         'a full disk, the session either ends with an error visible to its user, or its results, log and tables '
         'are the same as without the fault. It never announces saved, exported or generated data that a later '
         'session does not find complete and identical on disk.',
         ['fault_sequences', 'inputs', 'configurations'],
         'every I/O operation of every command, every error kind (EIO, ENOSPC, EDQUOT, EACCES, EMFILE, EINTR, '
         'short transfers, full disk at any byte), transient or persistent',
         'No test injects an I/O error.',
         ['quantas/cmdline/utils/messages.py', 'quantas/harmonic/harmonic.py', 'quantas/qha/qha.py',
          'quantas/soec/soec.py', 'quantas/IO/qha_writer.py', 'quantas/IO/soec_writer.py',
          'quantas/harmonic/utils/table.py', 'quantas/qha/utils/table.py', 'quantas/soec/utils/table.py'],
         [('context-managed files', 'export_hdf5, write, echo'), ('announcement after the save', 'export_hdf5')],
         ['console', 'exit status', 'files'],
         technique=TECH + 'one or more seeded faults at every operation of the simulated disk under whole sessions',
         note='Faults at the system-call boundary of the process; one session at a time.')

    prop('P06', 'Existing files change only with consent',
         'No command changes, truncates, renames or removes an existing file without an explicit yes, except the '
         "run's own log and figures; in particular its input files are never modified and no file outside "
         'its documented outputs is created. Answering no, just pressing Return, ending the input or interrupting '
         'leaves the existing file byte for byte as it was.',
         ['histories', 'inputs', 'configurations', 'fault_sequences'],
         'all commands, options, names of existing files (results, tables, inputs, links) and all answer sequences '
         'including invalid answers, end of input and Ctrl-C',
         'No test answers a question or has an output file already in place.',
         ['quantas/harmonic/commands/cmd_ha.py', 'quantas/qha/commands/cmd_qha.py',
          'quantas/soec/commands/cmd_soec.py', 'quantas/eosfit/commands/cmd_eosfit.py',
          'quantas/harmonic/commands/cmd_inpgen.py', 'quantas/soec/commands/cmd_inpgen.py',
          'quantas/harmonic/utils/export.py', 'quantas/qha/utils/export.py', 'quantas/soec/utils/export.py',
          'quantas/cmdline/utils/messages.py'],
         [('overwrite confirmation', 'the commands and export loops'), ('default answer No', 'messages.confirm')],
         ['files', 'questions shown', 'system calls on existing files'],
         technique=TECH + 'a seeded simulated user against whole sessions in a populated folder; every system call on a pre-existing file judged against the answers given so far',
         note='Judged on the recorded system calls, so a file damaged and restored is noticed too.')

    prop('P07', 'Announced results are complete; a crash never leaves a loadable wrong file',
         'Once a session announces that results were exported, the results file holds every quantity with its '
         'unit, grid and values bit for bit as calculated, and the export command accepts it. If the process or '
         'the machine stops at any earlier point, the file left behind is refused by the export command or holds '
         'complete correct results; it never yields partial or wrong numbers.',
         ['crash_points', 'inputs', 'configurations'],
         'every prefix of the writes of a session, torn at any byte, for HA, QHA and SOEC results of any size',
         'No test stops a run, nor reads a results file back.',
         ['quantas/harmonic/harmonic.py', 'quantas/qha/qha.py', 'quantas/soec/soec.py',
          'quantas/harmonic/utils/export.py', 'quantas/qha/utils/export.py', 'quantas/soec/utils/export.py'],
         [('HDF5 file closed before the announcement', 'export_hdf5'), ('checks on load', 'export load()')],
         ['results file', 'export sessions', 'announcement'],
         technique=TECH + 'crash images of the recorded write log at every write, torn and whole, each opened by a real export session',
         note='Crash model: writes reach the disk in order, the last one possibly torn.')

    prop('P08', 'Exported tables equal the stored results, whatever is exported before',
         'In an export session of any length each table written holds the grid, the unit and every value of the '
         'selected quantity from the loaded results file, in its documented number of digits, with rows and '
         'columns on the right temperature, volume, pressure or angle. Earlier selections, invalid answers and '
         'other results files exported before do not affect a table, and the file announced is the file written.',
         ['histories', 'inputs', 'configurations'],
         'all export sessions over HA, QHA and SOEC results: any order and repetition of selections, invalid '
         'answers, overwrite dialogues, alternative names',
         'The export commands have no test.',
         ['quantas/harmonic/utils/export.py', 'quantas/qha/utils/export.py', 'quantas/soec/utils/export.py',
          'quantas/harmonic/utils/table.py', 'quantas/qha/utils/table.py', 'quantas/soec/utils/table.py',
          'quantas/harmonic/commands/cmd_export.py', 'quantas/qha/commands/cmd_export.py',
          'quantas/soec/commands/cmd_export.py'],
         [('export loop', 'run() of the exporters'), ('table formatting', 'table.py')],
         ['exported files', 'console'],
         technique=TECH + 'a seeded simulated user drives multi-step export sessions; tables parsed and compared with the results file',
         note='Tables compared through an independent parser of the text layout.')

    prop('P09', 'The log is the complete transcript of its run',
         'The log of a calculation contains, in order and without gaps, repetitions or foreign text, everything '
         'the run reported up to its end or to the point where it was stopped. Running quietly changes what is shown '
         'on screen but not the log, and a log left from an earlier run is replaced, never mixed in.',
         ['crash_points', 'histories', 'configurations', 'inputs'],
         'all calculations with any options, quiet or not, debug or not, over any earlier log, and every crash point',
         'The tests never look at a log.',
         ['quantas/cmdline/utils/messages.py', 'quantas/core/calculator.py', 'quantas/harmonic/commands/cmd_ha.py',
          'quantas/qha/commands/cmd_qha.py', 'quantas/soec/commands/cmd_soec.py',
          'quantas/eosfit/commands/cmd_eosfit.py', 'quantas/eosfit/eosfit.py'],
         [('echo family writes each message to the log', 'messages.py'),
          ('log opened per message and closed', 'messages.py')],
         ['log file', 'console', 'write log of the simulated disk'],
         technique=TECH + 'transcript of each simulated session against the write log of its log file, at every crash point and under I/O faults',
         note='Durability judged on bytes handed to the operating system.')

    prop('P10', 'Results do not depend on clock, hash seed, folder, verbosity or threads',
         'Results, reports and tables are the same for every behaviour of the clock (stopped, jumping forwards '
         'or backwards), string hash seed, working folder and way of naming the input, verbosity, terminal kind '
         'and number of threads; only the reported times may differ. A clock that jumps never makes a run fail.',
         ['schedules', 'fault_sequences', 'configurations'],
         'all clock histories (steps, jumps, freezes), hash seeds, folders, output names, flags and team sizes',
         'Tests run with one clock, one folder, one hash seed at a time and never compare runs.',
         ['quantas/harmonic/harmonic.py', 'quantas/qha/qha.py', 'quantas/soec/soec.py',
          'quantas/core/calculator.py', 'quantas/cmdline/utils/messages.py'],
         [('elapsed times only reported', 'run() of calculators'), ('silent/debug only affect messages', 'calculator.py')],
         ['console', 'log', 'HDF5 results'],
         technique=TECH + 'the same job under seeded clock jumps, folders, flags and OpenMP schedules, compared with a plain run',
         note='Elapsed-time lines are masked; everything else compared exactly (datasets to rounding across team sizes).')

    prop('P11', 'Interrupting a job at any point loses only that job',
         'A Ctrl-C, an end of input or a failed memory allocation at any point of a session ends it visibly, '
         'without announcing, or leaving behind as loadable, results that are not complete and without touching '
         'existing files beyond its own log. '
         'The same job run again, in the same process or another, then gives exactly what it gives when never '
         'interrupted.',
         ['crash_points', 'histories', 'fault_sequences'],
         'an asynchronous event at any executed line of any command, followed by any retry',
         'No test interrupts anything.',
         ['quantas/core/calculator.py', 'quantas/harmonic/harmonic.py', 'quantas/qha/qha.py',
          'quantas/soec/soec.py', 'quantas/eosfit/eosfit.py', 'quantas/IO/qha_writer.py',
          'quantas/IO/soec_writer.py', 'quantas/IO/eos_reader.py'],
         [('state kept per job', 'constructors'), ('exceptions not swallowed', 'commands')],
         ['exit status', 'console', 'files'],
         technique=TECH + 'exception injected at a seeded executed line or prompt of a session, then the job is retried and compared with an undisturbed run',
         note='Events arrive between Python source lines.')

    prop('P12', 'Generated input files carry the ab initio data faithfully',
         'An input file written by the generator from any set of ab initio outputs, read back, gives the volumes, '
         'energies, frequencies, weights, cell multiplicity, elastic moduli and density of those outputs in the '
         'order of the list, to the digits written, with q-points and counts of the chosen reference, and the '
         'job name the user typed. Files generated before in the same process do not affect it, and a refused '
         'source leaves no generated file.',
         ['inputs', 'histories', 'configurations'],
         'all supported sources (CRYSTAL, CRYSTAL-QHA, phonopy, VASP), list lengths and orders, references, job '
         'names, and sequences of generations',
         'Tests parse some sample outputs and do not write or read back an input file.',
         ['quantas/IO/qha_writer.py', 'quantas/IO/soec_writer.py', 'quantas/interfaces/crystal.py',
          'quantas/interfaces/phonopy.py', 'quantas/interfaces/vasp.py', 'quantas/IO/qha_reader.py',
          'quantas/IO/soec_reader.py', 'quantas/harmonic/commands/cmd_inpgen.py',
          'quantas/soec/commands/cmd_inpgen.py'],
         [('writers', 'qha_writer.py, soec_writer.py'), ('list handling', 'QHAInputCreator.read')],
         ['generated file', 'console', 'readers on the generated file'],
         technique=TECH + 'seeded multi-file generation sessions with a simulated user; the file is re-read and compared with the generated sources',
         note='Sources come from generators of each code\'s output format.')

    prop('P13', 'Interactive EoS fitting uses exactly what the user chose last',
         'In an interactive fitting session every fit uses the data, formulation, order, starting and fixed '
         'parameters and weights chosen most recently, and the parameters shown before a fit are those entered '
         'last or, when the user accepted an update, those of the last fit. Invalid answers are asked '
         'again and change nothing, each report states the choices actually used, and any sequence of answers '
         'ends the session or reaches the next question.',
         ['histories', 'inputs', 'configurations'],
         'all dialogues: any sequence of fits, changes of data and formulation, updates, fixes, weights, invalid '
         'answers and end of input, over files with any columns',
         'There is no test of the interactive session.',
         ['quantas/eosfit/eosfit.py', 'quantas/eosfit/utils/interactive.py', 'quantas/eosfit/utils/pv_eos.py',
          'quantas/eosfit/commands/cmd_eosfit.py'],
         [('session loop', 'EoSFitCalculator.run'), ('choices and prompts', 'interactive.py')],
         ['console', 'log', 'arguments of the fit'],
         technique=TECH + 'a seeded simulated user against the real session, checked step by step by a state-machine model that refits with scipy',
         note='The numbers of each fit are checked against the same regression run on the model\'s own choices.')

    prop('P14', 'Harmonic results equal their definition in the units asked for',
         'For every valid input, temperature range and choice of units, the stored zero-point and thermal '
         'energies, entropy, heat capacity, vibrational and total free and internal energies equal the '
         'weighted harmonic sums over the given frequencies on the requested temperature grid and the given '
         'volumes, converted consistently to the unit each is labelled with. The report shows the input values '
         'read, and total = static + zero-point + thermal and free = static + vibrational hold in every cell.',
         ['inputs', 'configurations', 'schedules'],
         'all inputs, temperature grids, unit choices and thread schedules',
         'The test checks one file with one temperature in one unit system.',
         ['quantas/harmonic/harmonic.py', 'quantas/utils/physics/units.py',
          'quantas/utils/physics/statistical_mechanics.pyx', 'quantas/IO/qha_reader.py',
          'quantas/harmonic/commands/cmd_ha.py'],
         [('conversion to SI and back', 'HACalculator.run'), ('weights', 'HACalculator.run')],
         ['HDF5 results', 'calculator.results', 'console'],
         technique=TECH + 'whole sessions under seeded thread schedules against an independent numpy reference model',
         note='Reference model with CODATA constants from scipy; relative tolerance 1e-6 of the sum of terms.')

    prop('P15', 'Quasi-harmonic results are mutually consistent in every cell',
         'For every valid input, scheme, minimisation, grid and choice of units, in each pressure-temperature cell the '
         'volume minimises free energy plus pressure work, the quantities are those of the model at that volume, in the '
         'units they are labelled with, H = U + PV, G = F + PV, F = U - TS, and total = static + zero-point + thermal. '
         'With 50 or more temperatures, expansion is the change of volume between neighbouring temperatures, Cp exceeds Cv '
         'by its term and KS/KT = Cp/Cv; with fewer these are reported as not calculated (zero, KS = KT). Apart from '
         'expansion no cell depends on which other temperatures and pressures are asked for, and the report repeats the '
         'settings, the input with its static pressures and the results.',
         ['inputs', 'configurations', 'schedules'],
         'all inputs, schemes, minimisations, polynomial degrees, equations of state, grids, units and thread schedules',
         'There is no test of the quasi-harmonic calculation.',
         ['quantas/qha/qha.py', 'quantas/qha/utils/ev_eos.py', 'quantas/utils/physics/thermodynamics.pyx',
          'quantas/utils/physics/units.py', 'quantas/utils/math/polynomials.py', 'quantas/utils/math/fast_math.pyx'],
         [('volume minimisation', 'QHACalculator'), ('property evaluation per cell', 'QHACalculator')],
         ['HDF5 results', 'calculator.results'],
         technique=TECH + 'whole sessions under seeded thread schedules against an independent reference model and cell identities',
         note='Identities at rounding tolerance; derivative-based ones against an independent recomputation.')

    prop('P16', 'Elastic results equal their tensor definitions',
         'For every stiffness matrix of any crystal system the stored and reported compliance, Voigt, Reuss and Hill '
         'averages, eigenvalues, mean velocities and polar sections equal their tensor definitions in the units they are '
         'labelled with, and the extremes reported are those over all directions, attained along the axes reported with '
         'them. Crystals that are not positive definite are reported as unstable and store nothing. What was analysed '
         'before, interrupted or not, with the same calculator or another has no influence.',
         ['inputs', 'histories', 'configurations', 'crash_points'],
         'all stiffness matrices, densities, forms of the file, options, and all histories of analyses in one process',
         'The tests read one matrix and compute nothing from it.',
         ['quantas/soec/soec.py', 'quantas/soec/utils/soec_obj.py', 'quantas/IO/soec_reader.py',
          'quantas/IO/soec_writer.py'],
         [('tensor formulas', 'SOEC, SOECOrtho'), ('search for extremes', 'directional_variation, minimize'),
          ('polar sections', 'calculate_polar_properties')],
         ['HDF5 results', 'log', 'calculator.results'],
         technique=TECH + 'seeded histories of sessions and reused, interleaved and interrupted calculators against an '
         'independent fourth-rank tensor model',
         note='Extremes to 0.3 % of their range over a sampled and refined reference; the rest to rounding.')

    prop('P17', 'The crystal system named is the symmetry the stiffness has',
         'The crystal system an analysis names is the most symmetric of the nine classes under whose rotations, about the '
         'conventional axes, the stiffness matrix of that analysis does not change within 0.001 GPa. It does not depend on '
         'the form of the file or on the crystals analysed before with the same calculator or another.',
         ['inputs', 'histories', 'configurations'],
         'all stiffness matrices, exact or disturbed, in conventional or other axes, and all histories of analyses',
         'No test names a crystal system.',
         ['quantas/soec/utils/symmetry.py', 'quantas/soec/soec.py', 'quantas/IO/soec_reader.py'],
         [('relations between moduli', 'check_symmetry'), ('state of the calculator', 'SOECCalculator.read_input')],
         ['console', 'log'],
         technique=TECH + 'seeded histories of sessions and reused, interleaved and interrupted calculators against a model '
         'that rotates the tensor',
         note='Crystals within a factor of four of the tolerance are not judged.')

    prop('P18', 'Seismic wave analysis solves the Christoffel equation, whatever came before',
         'For every crystal and the direction last set on it, in spherical or Cartesian form, a Seismic object returns the '
         'phase and group velocities, polarisations, their derivatives, power flow angles and enhancement factors that '
         'follow from the Christoffel equation, and the averages that follow from the stiffness. Answers do not depend on '
         'what was asked before, in which order, on other objects, or on an interrupted question, and answers already '
         'given do not change.',
         ['inputs', 'histories', 'schedules', 'crash_points'],
         'all crystals and directions, all sequences of directions and questions over any number of objects, interrupted '
         'anywhere or in threads',
         'There is no test of this module.', ['quantas/seismic/utils/seismic_obj.py'],
         [('cached answers', 'Seismic properties and clear()'), ('eigenproblem and its derivatives', 'solve, solve_group')],
         ['properties of Seismic'],
         technique=TECH + 'seeded histories, thread schedules and interrupts of queries against an independent tensor model',
         note='The calculator and the command of this module cannot be imported at this commit and are not judged.')

    prop('P19', 'The polar figures show the polar sections that were calculated',
         'With --polar and --plot each analysis writes one complete figure per quantity, of the resolution asked for, whose '
         'three panels hold exactly the stored curves of that plane, all within the range shown and named by the legend; '
         'otherwise it draws none, and without matplotlib it says so and still stores its results. A figure does not depend '
         'on earlier or concurrent analyses, none is left open, and one that cannot be saved is reported.',
         ['inputs', 'histories', 'schedules', 'configurations', 'fault_sequences'],
         'all crystals, options, histories and interleavings of analyses, and disk errors while a figure is saved',
         'No test draws a figure.', ['quantas/soec/utils/plotting.py', 'quantas/soec/soec.py'],
         [('drawing', 'plotting.py'), ('saving', 'SOECCalculator.run')], ['figure objects', 'PNG files'],
         technique=TECH + 'seeded histories, thread schedules and disk faults of plotting sessions; figures taken apart and '
         'compared with the stored sections',
         note='Curves to rounding; files complete and byte for byte those of a pristine process.')

    # ------------------------------------------------------- not applicable
    pure = ('A pure function of one input: no schedule, clock, I/O, history or fault can change it, so simulation '
            'has nothing to decide beyond what P02-P04, P07 and P10 already do on the path to it.')
    prop('P32', 'Unit conversions are exact inverses and agree with CODATA',
         'Every conversion between supported units of energy, frequency, volume, temperature and pressure is the '
         'inverse of the opposite conversion and agrees with the CODATA factors.', ['inputs'],
         'all values and pairs of units', 'No test.', ['quantas/utils/physics/units.py'],
         [('conversion tables', 'units.py')], ['convert_energy'],
         na=pure + ' Those used by HA and QHA runs are judged through P14 and P15.')
    prop('P33', 'Equation-of-state formulas equal their published forms',
         'Each implemented P-V and E-V equation of state equals its published form at every order.', ['inputs'],
         'all parameters and volumes', 'No test.',
         ['quantas/eosfit/utils/pv_eos.py', 'quantas/qha/utils/ev_eos.py'], [('formulas', 'pv_eos.py, ev_eos.py')],
         ['eos()'], na=pure)
