"""Generates properties.jsonl and MANIFEST.json from one table."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, bound, note, observe):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext,
                  why=why, files=files, mech=mech, bound=bound, note=note,
                  observe=observe))


W = 'wcxf/translators/wet.py'
S = 'wcxf/translators/smeft.py'
T = 'wcxf/translators/__init__.py'
M = 'wcxf/matchers/__init__.py'
MS = 'wcxf/matchers/smeft.py'
SU = 'wcxf/util/smeftutil.py'
C = 'wcxf/classes.py'
Q = 'wcxf/util/qcd.py'
CLI = 'wcxf/cli.py'

prop('P01', 'JMS coefficients translate to the correct flavio/Bern/EOS/formflavor values',
     'For every Wilson coefficient file in the JMS basis of WET (and WET-4, WET-3 for flavio and Bern) and any scale, translating to flavio, Bern, EOS or formflavor gives exactly the coefficients of the same effective Lagrangian written in the target basis (colour Fierz identities, complex conjugation, flavour index order, CKM, G_F, e, g_s and running-mass normalisation included), and every target coefficient not generated by the input is absent. The index-permutation and hermiticity relations between JMS coefficients are respected, so each independent input coefficient contributes through all of its redundant index assignments.',
     ['inputs'], 'every single JMS coefficient with real and complex value, every operator group, dense vectors, and all scales of a fixed alphabet',
     'The repository tests compare a handful of coefficients and need the wcxf-bases submodule; a wrong sign, conjugate or index in one of thousands of matrix elements is only visible for one coefficient.',
     [W, T], [('per-class basis change functions', W), ('index symmetrisation of JMS input', W)],
     'every JMS coefficient x {1, complex}, every operator group, dense vectors x 7 scales, 3 magnitudes',
     'Values compared (rtol 1e-9) with an independent table-driven reference model of the basis definitions; trusts ckmutil and RunDec.', ['WC.translate'])
prop('P02', 'Bern, flavio and FlavorKit translations are correct and mutually inverse',
     'For every Wilson coefficient file and any scale, Bern to flavio and flavio to Bern (WET, WET-4, WET-3), FlavorKit to JMS, JMS to FlavorKit and FlavorKit to flavio give the coefficients of the same Lagrangian in the target basis. Translating flavio to Bern and back, and FlavorKit to JMS and back, restores every coefficient, and translating JMS to flavio directly or through Bern gives the same result.',
     ['inputs'], 'every coefficient of each source basis with real and complex value, dense vectors, all scales of a fixed alphabet, every two-step route',
     'The tests round-trip random vectors of one EFT; inverse pairs can be wrong consistently or for one flavour combination only.',
     [W, T, 'wcxf/data/flavorkit_jms.json', 'wcxf/data/flavorkit_jms_conj.json'],
     [('flavio/Bern conversion functions', W), ('FlavorKit name tables', 'wcxf/data')],
     'every Bern/flavio/FlavorKit coefficient x {1, complex}, dense vectors x scales, all two-step routes per coefficient',
     'Reference model plus round-trip and route-commutation equations on every basis element.', ['WC.translate'])
prop('P03', 'Translation and matching always produce valid, finite files of the target basis',
     'For every valid input file (any subset of the coefficients of the source basis, including none and including explicit zeros) every registered translation and matching succeeds and returns a file that validates: only coefficients of the target basis, all of them finite numbers, none of them zero, stored as plain real numbers or Re/Im pairs of plain numbers. The output carries the target EFT and basis name and the scale of the input, and an input whose coefficients are all absent or zero gives an empty output.',
     ['inputs'], 'every registered converter x every single coefficient, every single explicit zero, the empty file, operator groups and dense files',
     'Tests run full files through a few converters; a missing coefficient name, NaN or key outside the basis shows only for particular subsets of input coefficients.',
     [W, S, MS, T, M, C], [('filtering of zeros and conversion to values', C), ('completion of missing coefficients', W)],
     'all converters x {empty, all-zero, each single coefficient, each operator group, dense}',
     'Decided by validation against reconstructed basis definitions (the wcxf-bases submodule is absent).', ['WC.translate', 'WC.match', 'WC.validate'])
prop('P04', 'Basis translations are real-linear and treat absent coefficients as zero',
     'Every basis translation is linear over the real numbers in the coefficients (the neutrino-mass coefficient in the Warsaw mass basis excepted): the translation of a sum of inputs is the sum of the translations, and rescaling all inputs by a real factor of any magnitude rescales all outputs. Leaving a coefficient out is the same as giving it the value zero, and the order in which coefficients are listed does not matter.',
     ['inputs'], 'every coefficient removed from or set to zero in a dense file, all pairs of operator groups, all scale factors of an alphabet, several key orders',
     'Superposition and absence are relations between executions over all subsets of coefficients; tests look at single executions.',
     [W, S, SU], [('completion of missing coefficients with zeros', W), ('symmetrisation', SU)],
     'per translator: leave-one-out and explicit zero for every coefficient, all pairs of operator groups, 6 scale factors, 3 key orders',
     'Metamorphic equations evaluated on every enumerated pair of executions of the real code.', ['WC.translate'])
prop('P05', 'Warsaw, Warsaw up and Warsaw mass describe the same physics',
     'Translating a SMEFT file from Warsaw to Warsaw up rotates every left-handed quark doublet index by the CKM matrix and nothing else, Warsaw up to Warsaw is the exact inverse, and the non-redundant coefficients of the output again represent the full hermitian/symmetric tensors. Warsaw to Warsaw mass rotates the left-handed up-type index of the up-quark Yukawa-like and dipole coefficients, replaces the dimension-5 coefficient matrix by its non-negative singular values in ascending order on the diagonal, and leaves every other coefficient unchanged.',
     ['inputs'], 'every coefficient with real and complex value, every operator group, dense vectors, several CKM parameter sets; symmetric dimension-5 matrices over an alphabet of entries',
     'Tests convert one random file; a wrong index of one of 1635 coefficients or a wrong redundancy relation survives.',
     [S, SU, T], [('flavour rotation', SU), ('symmetrisation', SU), ('Warsaw mass translation', S)],
     'every coefficient x {1, complex}, groups, dense x CKM sets, round trips, 3^6 dimension-5 matrices',
     'Values compared with a reference model driven by the field content of every operator.', ['WC.translate'])
prop('P06', 'SMEFT tensors: symmetrisation is a projection, flavour rotation a group action',
     'Symmetrising a set of SMEFT coefficient arrays keeps the independent entries, fills all others by the hermiticity and permutation relations of the operator, makes self-conjugate entries real, is idempotent and does not modify its input. Flavour rotation transforms each index by the rotation of its own field (conjugated for barred fields), is trivial for unit matrices, composes, is undone by the inverse rotations, and maps symmetric arrays to symmetric arrays; completing missing coefficients adds zeros of the right shape and changes nothing else.',
     ['inputs'], 'every entry of every array with values 1 and i, all permutation matrices, phases and generic unitary matrices per field, all single missing/present coefficients',
     'There are thousands of hand-written index assignments; tests never touch most of them.',
     [SU, S], [('symmetrisation tables', SU), ('rotation einsums', SU), ('array/label conversion', S)],
     'every array entry x {1, i}, dense arrays, each field x 10 unitary matrices and all pairs for composition',
     'Compared entry by entry with the orbit-based reference model.', ['smeftutil.symmetrize', 'smeftutil.flavor_rotation', 'smeftutil.add_missing', 'wcxf2arrays', 'arrays2wcxf'])
prop('P07', 'SMEFT to WET matching gives the tree-level matching result without SM part',
     'For every SMEFT file in the Warsaw or Warsaw up basis and any admissible parameters, matching gives the complete tree-level matching coefficients in WET (contact terms, W and Z exchange with modified couplings, dipoles in the broken phase, input-parameter shifts of G_F and the mixing angle, down-quark rotation to the mass basis) minus their Standard Model value, including the non-linear dependence. Matching Warsaw to JMS equals translating to Warsaw up first, and matching to flavio, EOS or Bern equals matching to JMS followed by the corresponding translation.',
     ['inputs'], 'every Warsaw and Warsaw up coefficient with complex value, every operator group at three magnitudes, dense vectors, all routes',
     'The tests match a few coefficients with empty SM part and need the bases; the sign or index of one coefficient in ~1900 x 1600 matrix elements is invisible.',
     [MS, M, W, SU], [('matching conditions', MS), ('SM subtraction', MS), ('rotation to the mass basis', W)],
     'every coefficient (complex, 1e-8), every operator group at 1e-8/1e-6/1e-5, dense, routes, scales',
     'Compared with a reference implementation of the matching formulas (couplings computed from quantum numbers); rtol 1e-7.', ['WC.match'])
prop('P08', 'Matching across a quark threshold keeps exactly the surviving coefficients',
     'Matching WET to WET-4, WET-4 to WET-3 (flavio, Bern, JMS) and WET-3 to WET-2 (JMS) returns exactly those non-zero input coefficients that exist in the lower theory, with identical values, and drops all others. The result does not depend on parameters or scale.',
     ['inputs'], 'every coefficient alone, all explicit zeros, dense files, leave-one-out files, parameter overrides',
     'Tests check key lists of one random file for some of the matchers.',
     [M, C], [('restriction to the names of the lower basis', M)],
     'all 7 matchers x every coefficient x value alphabet, dense and leave-one-out',
     'Exact comparison.', ['WC.match'])
prop('P09', 'Parameter overrides are honoured, partially and without leaking',
     'Every conversion uses the documented default parameters except for those passed by the user: overriding any subset of them has exactly the effect of evaluating the conversion with these values (quark masses and alpha_s being input values that are run to the scale of the file), and an override equal to the default, an empty set of overrides and no overrides give identical results. Overrides never modify the passed dictionary or the defaults and have no effect on later conversions.',
     ['inputs', 'configurations', 'histories'], 'every converter x every single parameter (two directions), all pairs of parameters (thorough), interleaved calls with and without overrides',
     'The tests pass parameters in almost no call; a converter that ignores or half-applies one override is invisible.',
     [W, S, MS, Q, 'wcxf/parameters.py'], [('parameter merging', W), ('parameter merging', MS)],
     'all converters x 14 parameters x 2 values, all-override, pairs (thorough)',
     'Compared with the reference model evaluated with the same overrides.', ['WC.translate', 'WC.match'])
prop('P10', 'Conversions are pure: independent of history, inputs never modified',
     'The result of a translation or matching depends only on the input file, the target and the parameters, not on which conversions, QCD evaluations or validations were performed before, nor on the identity of the objects. A conversion modifies neither its input object (values, scale, metadata) nor the passed parameters, the default parameters, the registered EFTs, bases, translators and matchers.',
     ['histories', 'inputs'], 'all ordered pairs (thorough: triples) of operations from an alphabet covering every converter with different inputs, scales and parameters',
     'Every test starts from a fresh object; aliasing, cached or leaked state needs a particular sequence of two or three calls.',
     [C, W, S, MS, Q], [('copying of inputs and default parameters', W), ('caches of running quantities', Q)],
     'all ordered pairs of 47+ operations, triples of a core alphabet in the thorough tier',
     'Every step compared with the reference result; global state hashed after each step.', ['WC.translate', 'WC.match'])
prop('P11', 'Wilson coefficient values have one numeric meaning',
     'A coefficient value given as a number, a numeric string, or a Re/Im mapping with either part missing has exactly one numeric meaning (real, or Re + i Im with missing parts zero), and converting numbers to file values and back is the identity: values with non-zero imaginary part become Re/Im mappings of plain floats, all others plain floats. The scale is read as a number in the same way, and additional fields are kept.',
     ['inputs'], 'all files with up to two coefficients over an alphabet of about 30 value representations, all number types',
     'Tests use three example values.',
     [C], [('number conversion', C)],
     'all single values and ordered pairs of values over the alphabet',
     'Exact comparison with an independent reading.', ['WC.dict', 'WC.dict2values'])
prop('P12', 'Dumping and loading a file is lossless in JSON and YAML',
     'Dumping any EFT, basis or Wilson coefficient object to JSON or YAML (to a string or stream, format name in any case) and loading the text gives an object with equal public content: names, sectors, values, scale, parent-resolved sectors and all additional metadata, with unusual names, Unicode, empty definitions and extreme numbers intact. Private caches are not written, dumping does not change the object, and an unknown format is rejected.',
     ['inputs', 'configurations'], 'all combinations of object kind, format, target and a content alphabet of names, definitions and values',
     'Tests round-trip one example file per class.',
     [C], [('dump and load', C), ('YAML representers and constructors', C)],
     'object kinds x formats x stream/string x content alphabet (names x values)',
     'Exact comparison of the public content.', ['WC.dump', 'WC.load', 'Basis.dump', 'EFT.dump'])
prop('P13', 'The convert command preserves content and reports failure',
     '`wcxf convert` (and the library functions behind it) turns any YAML document with JSON-representable content into a JSON document with equal content and vice versa, reading from a file or standard input and writing to a file or standard output. Input that cannot be parsed, or an unknown output format, ends with a non-zero exit status and no traceback. A YAML document with content that JSON cannot represent is never converted with loss of entries and status zero.',
     ['inputs', 'configurations'], 'a document alphabet x direction x stdin/file x stdout/file, malformed documents, format names',
     'One document is converted in the tests.',
     ['wcxf/converters/yamljson.py', CLI, C], [('conversion functions', 'wcxf/converters/yamljson.py')],
     'document alphabet x directions x I/O routes (library in full, command line on a covering subset)',
     'Exact comparison of parsed content.', ['wcxf convert', 'convert_json', 'convert_yaml'])
prop('P14', 'WC validation accepts exactly the files consistent with their basis',
     'Validating a Wilson coefficient file succeeds if and only if its EFT is defined, its basis is defined for that EFT, and every coefficient name it contains is defined in some sector of that basis; otherwise a ValueError is raised, also under python -O. Validation has no side effects and judges by the definitions registered at the time of the call.',
     ['inputs', 'histories'], 'all combinations of EFT/basis names with all subsets of a name alphabet, in all registry states reachable in a few steps',
     'One valid and one invalid file in the tests.',
     [C], [('validation', C)],
     'registry states (all subsets of 2 EFTs x 3 bases) x all files over a 5-name alphabet; every name of all real bases',
     'Exact agreement with the acceptance predicate.', ['WC.validate'])
prop('P15', 'Basis validation accepts exactly well-formed bases and leaves no files',
     'Validating a basis succeeds if and only if its EFT is defined, all its sectors exist in the EFT, no coefficient appears in two sectors and the LaTeX code of all operators compiles (or LaTeX is not installed); otherwise a ValueError is raised, which quotes the undefined-command or fatal error found in the LaTeX log. All TeX code of the basis is passed to LaTeX, empty coefficient definitions are accepted, and no temporary files remain whatever LaTeX does, also if it cannot be started or validation is interrupted while it runs.',
     ['inputs', 'fault_sequences'], 'all small bases over an alphabet of sectors and coefficients x all LaTeX behaviours (absent, success, error with/without log, no log, crash)',
     'LaTeX is absent in CI; no failing basis is tested.',
     [C], [('validation', C), ('LaTeX test run', C)],
     'bases over 2 sectors x 3 coefficients x tex/None definitions x 7 LaTeX behaviours (stub executable)',
     'Stub `latex` on PATH records its input and simulates every outcome.', ['Basis.validate'])
prop('P16', 'Child bases inherit their parent without altering it',
     'A basis defined with a parent has all sectors of the parent, with the sectors it defines itself taking precedence, over any number of generations; defining it never changes the parent or any other basis. If the parent is not defined in the same EFT a ValueError is raised and the basis is not registered.',
     ['histories', 'inputs'], 'all definition sequences of up to 4 bases over small alphabets of names, parents and sectors',
     'One parent/child pair is tested.',
     [C], [('sector inheritance', C)],
     'all sequences of up to 3 (thorough 4) definitions over 3 names x 3 parents x 4 sector sets',
     'Reference model executed in lockstep.', ['Basis', 'Basis.load'])
prop('P17', 'The registries behave as independent ordered maps',
     'EFTs, bases, translators and matchers each form one registry in which the last definition under a name wins, lookup and deletion by name work, lookup of an unknown name fails, and clearing one registry leaves the others intact. The lists of known bases of an EFT and of known translators of an EFT or basis always reflect exactly the current content of the registries, in the order in which the names were entered (a redefinition keeps the position).',
     ['histories'], 'all operation sequences up to a depth over a small alphabet of define, delete, clear, lookup operations on the four registries',
     'Tests define objects but never interleave deletion, redefinition and listing.',
     [C], [('named instances', C), ('known_bases / known_translators', C)],
     'breadth-first exploration of all registry states to depth 6 (thorough 7), all sequences of length 4 (thorough 5)',
     'Reference model: four dictionaries.', ['EFT', 'Basis', 'Translator', 'Matcher'])
prop('P18', 'Translate and match dispatch to the right converter and label the result',
     'Translating or matching a file applies the converter most recently registered for exactly its EFT, basis and the requested target, passing numeric coefficients, scale and parameters, and returns a new file labelled with the target EFT and basis and the unchanged scale, containing the converter output without zeros. If no such converter exists a ValueError is raised, whatever else is registered.',
     ['inputs', 'histories'], 'all combinations of source and target names over the real registry and small custom registries, all converter outputs over a value alphabet',
     'One custom translator is tested.',
     [C], [('dispatch', C), ('decorators', C)],
     'all (EFT, basis, target) triples and (EFT, basis, EFT, basis) quadruples of all known names plus unknown ones; custom converters over a value alphabet',
     'Exact agreement with the dispatch table.', ['WC.translate', 'WC.match', 'translator', 'matcher'])
prop('P19', 'EOS export adds the new-physics shift to every EOS parameter',
     'Exporting a file in the EOS basis yields, for every SM parameter marked as relevant, central, min and max equal to the SM central value plus the real (or imaginary) part of the corresponding coefficient, where an absent coefficient counts as zero and lepton-universal charged-current parameters take the common electron/muon value. If electron and muon charged-current coefficients differ, including one of them missing, an error is raised and no parameters are written.',
     ['inputs'], 'all parameters of the SM file and synthetic parameter files x coefficient presence/value combinations',
     'Three values and one LFU violation are tested.',
     ['wcxf/converters/eos.py', CLI], [('NP contribution lookup', 'wcxf/converters/eos.py')],
     'every parameter x value alphabet; all presence/value combinations of e/mu coefficients; synthetic parameter directories; command line options',
     'Reference model of the naming convention.', ['wcxf2eos', 'get_sm_wcs', 'wcxf2eos command'])
prop('P20', 'The SMEFTsim card carries every coefficient with correct sign, phase and scale',
     'Exporting a Warsaw-mass file to SMEFTsim writes, for both model sets and input schemes, each supported coefficient into the card entry that carries its name: real coefficients with their sign and complex ones as modulus and phase, multiplied by the square of the cutoff scale (phases not), absent coefficients as zero, and no other entry changes. The remaining entries depend only on the model set, input scheme and cutoff scale, and the written card is readable and contains the same numbers.',
     ['inputs', 'configurations'], 'every coefficient of the Warsaw mass basis x value alphabet x model sets x schemes x cutoff scales',
     'One file with one setting is written and only checked to be readable.',
     ['wcxf/converters/smeftsim.py', 'wcxf/converters/SMEFTsim_param_card_elements.py', CLI],
     [('card filling', 'wcxf/converters/smeftsim.py')],
     'every coefficient x {real, negative, complex} x set A/B x schemes x 3 cutoffs; all card rows checked each time',
     'Row names in the card comments identify the coefficient; compared with the reference rule.', ['smeftsim_card_fill', 'wcxf2smeftsim command'])
prop('P21', 'QCD running: 3-loop results, correct thresholds, errors outside the domain',
     'The running coupling and quark masses equal the 3-loop RunDec result with the documented thresholds for every scale, flavour number and initial value, in particular the initial condition at its own scale and flavour number. Non-positive or non-numeric scales and unsupported flavour numbers raise ValueError, and results do not depend on previously made calls.',
     ['inputs', 'histories'], 'a grid of scales x flavour numbers x initial values, invalid arguments, and call sequences exceeding the cache',
     'Tests check some twenty points.',
     [Q], [('running with cached results', Q)],
     'grid of ~30 scales x f=3..6 x initial values, invalid arguments, all ordered pairs of colliding calls and cache overflow',
     'Shares only the compiled RunDec routines with the code.', ['qcd.alpha_s', 'qcd.m_b', 'qcd.m_c', 'qcd.m_s'])
prop('P22', 'The wcxf command line gives the library result and honest exit codes',
     '`wcxf translate`, `wcxf match` and `wcxf validate` read a file or standard input in JSON or YAML and write the result of the corresponding library call to standard output or the given file in the requested format. They exit with status zero if and only if the operation succeeded; `validate` prints its success message only for valid files.',
     ['inputs', 'configurations'], 'all subcommands x input formats x I/O routes x output formats x succeeding and failing requests',
     'Two validate calls and one translate/match call are tested, with the bases present.',
     [CLI, C], [('subcommands', CLI)],
     'product of subcommands, routes, formats and success/failure cases, executed through the real entry point',
     'In-process entry point with captured streams plus a subset as real processes.', ['wcxf'])
prop('P23', 'Summaries show every sector, coefficient and value',
     'The text summary of a basis lists every sector and, for each, every coefficient with its operator code and whether it is real or complex, and the summary of a coefficient file lists EFT, basis, scale and every coefficient with its numeric value, once each and in order; short representations identify the object.',
     ['inputs'], 'all small bases and files over an alphabet of definitions and values, and all reconstructed real bases',
     'Only the header of one summary is tested.',
     [C], [('markdown representation', C)],
     'bases over 2 sectors x 3 coefficients x 6 definitions; files over the value alphabet; all real bases',
     'Parsed back and compared.', ['str(Basis)', 'str(WC)', 'repr'])
prop('P24', 'Importing the package registers every shipped EFT and basis',
     'Importing the package defines exactly the EFTs and bases whose definition files are shipped with it, each under its own EFT and basis name with the content of its file, including the child bases, whose inherited sectors are those of their parent. This holds for any selection of definition files, whatever the order in which the operating system lists them, whatever other files lie beside them, and independent of the working directory.',
     ['inputs', 'schedules'], 'every set of definition files (children together with their parents) and every directory listing order',
     'Directory order is chosen by the operating system; the tests see one order, and here the definition files are not even present.',
     ['wcxf/__init__.py', C], [('loading at import', 'wcxf/__init__.py')],
     'every set of 2 EFT, 3 basis and 3 child files; all 720 listing orders of the full set (thorough: of every set)',
     'The repository files are imported through a scratch package directory of symbolic links in fresh processes with a controlled directory order.', ['import wcxf', 'EFT.instances', 'Basis.instances'])
prop('P25', 'A command that exits with status zero has written its complete result',
     'If writing the output of `wcxf convert`, `translate`, `match`, `validate`, `wcxf2eos` or `wcxf2smeftsim` fails after any number of bytes (full device, size limit, closed pipe), to standard output or to the output file, the command exits with non-zero status; whenever it exits with zero, the complete result has been written to the requested place (standard output also for --output without a file name). A JSON input cut off after any byte is rejected with non-zero status.',
     ['crash_points', 'fault_sequences'], 'every number of bytes after which the output fails x every command and output route; every truncation of the input',
     'No test lets an output or input fail.',
     [CLI, C, 'wcxf/converters/yamljson.py'], [('output streams', CLI)],
     '16 command lines x output routes x every failing byte (quick: every 1511th and the buffer boundaries above 2 kB), /dev/full, closed pipe, every truncation of the input',
     'The real entry points run in forked children with a file size limit; violations are confirmed in a process started from scratch.', ['wcxf', 'wcxf2eos', 'wcxf2smeftsim'])
prop('P26', 'Different conversion routes between the same bases agree',
     'Any two sequences of translations and matchings which start from the same file and end in the same EFT and basis give the same coefficients at the same scale and parameters, provided that they do not pass through a basis that lacks coefficients (flavio, EOS, formflavor, FlavorKit; such a basis may be the start or the end, and threshold matching within it is allowed): translating via Bern equals translating directly, matching and then translating equals translating and then matching, matching directly to a WET basis equals matching to JMS and translating, and round trips return the original coefficients.',
     ['inputs', 'programs'], 'all routes through the converter graph up to a length x all coefficients singly, in groups and densely x parameters and scales',
     'Tests compare single converters with stored numbers; no test compares two routes.',
     [W, S, MS, T, M], [('translators', T), ('matchers', M)],
     'all routes of up to 4 (thorough 5) conversions; shortest route against every other one',
     'No reference model of the physics is needed; tolerances are rounding only.', ['WC.translate', 'WC.match'])

prop('P27', 'Library calls in parallel threads give the results they give alone',
     'Translations, matchings, QCD running, loading, dumping, validation, summaries and the EOS and SMEFTsim export may be called from several threads of one process: whatever the interleaving of two calls, with different inputs, scales and parameters or on one shared file or basis object, each of them gives the result it gives when it runs alone, and no call fails because of the other one. (Registering EFTs, bases and converters with other names at the same time is allowed for the definition of child bases only.)',
     ['schedules', 'programs'], 'all interleavings of two calls with one switch before every executed source line of the package, and with two switches at function entries',
     'Tests call one function at a time in one thread.',
     [W, S, MS, C, Q], [('smeft translators', S), ('classes', C), ('wet translators', W), ('qcd', Q)],
     'one preemption before every executed line, two preemptions at function entries (bounds in the evidence); two threads',
     'Specification is sequential execution of the same code; no reference model needed.', ['WC.translate', 'WC.match', 'Basis.validate'])

prop('P28', 'An interrupted call has no effect on later calls',
     'If a translation, matching, QCD evaluation, load, dump, validation, summary, basis definition or export is interrupted at any point (Ctrl-C in an interactive session, a timeout signal), later calls are not affected: repeating the call with the same objects and parameters gives the result of an uninterrupted call, other calls give their usual results, and the input file, the default parameters, the registered EFTs, bases, translators and matchers are as before. An interrupted basis definition leaves no incomplete basis in the registry.',
     ['crash_points', 'programs'], 'interruption before every source line of the package executed by each call, and interruption of the repetition',
     'Tests never interrupt a call.',
     [W, S, MS, C, Q], [('smeft translators', S), ('classes', C), ('wet translators', W), ('qcd', Q)],
     'every executed line (first occurrence; thorough: second and last), pairs of interruptions at function entries',
     'Specification is the uninterrupted execution of the same code; no reference model needed.', ['WC.translate', 'WC.match', 'WC.dict', 'Basis.all_wcs'])

prop('P29', 'Results do not depend on the process environment',
     'Importing the package, conversions, validation, loading, dumping, summaries, QCD running, the registries and the exports give the same results and the same errors in every process: whatever the hash seed, with python -O and -OO, in isolated and development mode, in any locale and time zone, without HOME and PATH, in any working directory (empty, containing files named like those of the package, or deleted meanwhile), and if NumPy has been told to raise floating-point errors. Nothing is written to the working directory by library calls.',
     ['configurations', 'inputs'], 'every environment configuration x converters, operator groups, library calls and cases of the other checks',
     'Tests run in a single environment.',
     [W, S, MS, C, Q], [('smeft translators', S), ('classes', C), ('wet translators', W), ('qcd', Q)],
     'hash seeds 0 to 11 (thorough: 127) and 15 other configurations',
     'The environment is varied in one dimension at a time; the hash seed has 2**32 values.', ['import wcxf', 'WC.translate', 'WC.match', 'WC.dump', 'Basis.validate'])

TECH = 'exhaustive explicit-state enumeration of the real code against a reference model'
if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    checks = []
    na = []
    for p in P:
        if os.path.exists(os.path.join(V, 'mc', 'checks', p['id'].lower() + '.py')):
            checks.append({
                'property': p['id'],
                'quick_cmd': 'bash check.sh %s quick' % p['id'],
                'thorough_cmd': 'bash check.sh %s thorough' % p['id'],
                'technique': 'model checking: ' + TECH,
                'level': 'model_checking',
                'level_note': 'Bounds: %s. %s' % (p['bound'], p['note'])})
        else:
            na.append({'property': p['id'], 'reason': 'check not built yet'})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
                   'not_applicable': na}, f, indent=1)
        f.write('\n')
