TV = "symbolic execution (own Fortran-to-z3 encoder) of the caps the real generator emits for a library of scenarios, in lockstep with an oracle; z3 decides every value, shape, branch and fault assertion; counterexamples replayed with gfortran"
TVN = "bounded: the scenario library (vt/capgen/scenarios.py), 2-3 columns/levels; field values, flags, loop counts, indices and error codes symbolic; real arithmetic exact"
CH = {
 'P01': ('translation_validation', TV, TVN),
 'P02': ('translation_validation', TV, TVN),
 'P03': ('translation_validation', TV, TVN),
 'P04': ('translation_validation', TV, TVN),
 'P05': ('translation_validation', TV, TVN + "; one (thorough: two) scheme errors per history at any call"),
 'P06': ('translation_validation', TV + "; the call history is symbolic: every state combination, then every sequence of further calls", TVN + "; 2-3 (thorough 3-4) free calls after every combination of suite states"),
 'P07': ('translation_validation', TV + "; suite and part names are symbolic strings", TVN + "; names of 0, 1 and len+-1 printable characters"),
 'P08': ('translation_validation', TV + "; query flags and unknown suite names are symbolic", TVN + "; all flag combinations"),
 'P09': ('translation_validation', TV + "; caps generated with --debug, one host array wrongly sized at a symbolic place", TVN + "; one array, one dimension, one element too many or too few"),
 'P10': ('translation_validation', TV, TVN),
}
PS = "symbolic execution of the real Python functions (own AST-instrumented executor, strings as symbolic characters); z3 decides agreement with an independent oracle on every path; counterexamples replayed on the native code"
CH['P14'] = ('model_checking', PS, "bounded: every string up to the stated lengths per validator over the stated alphabets, plus whole metadata tables with one symbolic line")
CH['P12'] = ('model_checking', PS + "; the generated conversion formulas themselves are parsed and decided over all real inputs", "bounded: all ordered pairs of the unit table and unit texts of up to 4 free characters against it; every real value, exact arithmetic (relative tolerance 1e-10 for decimal constants); integer conversions outside")
CH['P11'] = ('model_checking', PS + '; both on the pairwise comparison and on the whole analysis of a host and schemes whose metadata holds symbolic text', 'bounded: 7 types, one symbolic character in names, kinds, units, lengths and dimension names, up to 3 (thorough 4) dimensions in every order, one or two arguments')
CH['P15'] = ('model_checking', PS, 'bounded: every source of up to 3 lines with 4 (thorough 5) free characters and templates of continued statements; free form, no directives')
CH['P16'] = ('model_checking', PS + '; definitions and values symbolic, the text of each condition concrete', 'bounded: all nestings of up to 2 (thorough 3) conditionals, a list of condition forms over 1-3 macros with every value 0..99, define/undef sequences, all malformed sequences up to 4 (thorough 6) directives')
CH['P17'] = ('model_checking', PS, 'bounded: templates of statements up to 370 characters with 3-5 free characters, default limits and a small writer (12/16)')
CH['P18'] = ('model_checking', PS, 'bounded: every documented suffix in every mixture of cases after up to 2 (thorough 4) free characters, with changed, added or missing characters; every name of 6 (thorough 7) characters')
CH['P26'] = ('model_checking', PS + '; on the whole analysis of a host and schemes whose metadata holds symbolic text', 'bounded: up to 4 uses of a variable by the schemes of 1-3 (thorough 4) parts, in sequences and subcycles, every combination of intents, symbolic local names, implicit reads as dimension or condition')
CH['P25'] = ('model_checking', PS + '; where the translated text differs from the token-wise expectation, z3 compares the truth value of both conditions for all values of the variables', 'bounded: about 45 templates of conditions with up to 4 (thorough 6) free characters, eight variables whose standard and local names overlap, capgen; the prebuild translation is under P22')
CH['P24'] = ('model_checking', PS + '; the file system is a stand-in whose files have symbolic presence, contents relation, size and time stamp, and the real one in the replay', 'bounded: up to 4 generated files of one run with any older versions at a time (missing, any contents, size, time stamp), one suite, leftovers of an interrupted run; no permissions, links or failing system calls')
CH['P23'] = ('model_checking', PS + '; the datatable of a whole symbolic generation is queried by every report', 'bounded: eleven (thorough 13) layouts of 1-3 suites, every intent of up to four uses of two host and one suite variable, a standard name with a symbolic character, protected or not, short lists of processes and dependencies, any separator of five; part names of different suites do not coincide (their caps would not compile together); the --show listing is not claimed')
CH['P13'] = ('model_checking', PS + '; whole metadata and source files with symbolic text are parsed and compared', 'bounded: one argument at three places with every type, kind (a symbolic character), intent, rank <= 3 and optionality on both sides; 13 declaration styles; lists of up to 2 (thorough 3) symbolic names on both sides; module and derived type tables of up to 2 against 3 variables and array references; three entry points, two files; the text of dimensions and the case of derived type names are not claimed')
CH['P21'] = ('translation_validation', TV.replace('caps the real generator emits', 'caps ccpp_prebuild emits'),
             'bounded: the scenario library (vt/prebuild/scenarios.py); every sequence of 3 calls (2 with several suites; thorough one more) of any stage, suite, group and instance out of three; at most one failing scheme call per life cycle (thorough 2) with any error code; suite and group names of any printable characters with lengths near the real ones')
CH['P22'] = ('translation_validation', TV.replace('caps the real generator emits', 'caps ccpp_prebuild emits'),
             'bounded: the scenario library (vt/prebuild/scenarios.py: plain, chunked and blocked host data, derived types, conditions, unit conversions), 2-3 blocks or chunks of 1-3 columns; field values, flags and condition operands symbolic; real arithmetic exact; one thread')
CH['P30'] = ('model_checking', PS, 'bounded: standard names of up to 3 (thorough 4) characters over two letters and queries of up to as many, two entry points; suites of up to 2 groups, 2 subcycles, 2 schemes, 3 iterations; four layouts of files')
CH['P31'] = ('model_checking', PS, 'bounded: up to 3 variables, two free characters of a description over 20 (HTML, TeX specials), one or two of the names; own readers of HTML entities and TeX escapes')
CH['P32'] = ('model_checking', PS, 'bounded: up to 3 listed files, 3 schemes, 2 suites, 3 dependencies; the file system is a stand-in in the explorer')
NA = {}
