#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(qtext.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)

S = "scripts/"
CAPW = "generated <host>_ccpp_cap.F90 and ccpp_<suite>_cap.F90"

# ---------------------------------------------------------------- capgen: generated caps
prop("P01", "capgen caps call the schemes of the suite definition, in its order",
"""For every valid suite definition, each phase call the host makes (register, init, timestep init, run of a
 group, timestep final, finalize) invokes exactly the entry points that the suite's schemes define for that phase,
 in the order in which the suite definition lists them. A run call invokes the schemes of the requested group only,
 and repeats the contents of a subcycle exactly as many times as its loop count says (literal or host variable),
 including nested subcycles. No scheme entry point of another phase, group or suite is called.""",
["programs", "inputs", "histories"],
"""all values of host variables and loop-count variables at run time (symbolic), for suite definitions built from a
 bounded grammar of groups, schemes, nested subcycles and phases""",
"""The end-to-end tests run four fixed suites with one set of host values; the property is over every suite
 definition and every run-time value of the loop counts.""",
[S+"ccpp_suite.py", S+"suite_objects.py", S+"host_cap.py"],
[("Suite.parse / Suite.analyze", S+"ccpp_suite.py"), ("Group.analyze/write, Subcycle.write, Scheme.write", S+"suite_objects.py")],
[CAPW])

prop("P02", "capgen binds every scheme argument to the host or suite variable it names",
"""In a generated cap every scheme argument is connected to the one variable with the same standard name: the scheme
 sees the value that variable holds at that point of the call sequence, and a value it writes is what later schemes,
 other groups and the host see under that standard name. This holds whatever the local names, argument order,
 position inside (nested) derived types, array sections or call-time dimensions are, and nothing else the host owns
 is modified. Run-phase calls see exactly the columns between the loop begin and loop end the host passed,
 and a scheme that declares a single level of a field is called once for every level.""",
["programs", "inputs"],
"""all values of all host variables (symbolic), for programs built from a bounded grammar of host modules, derived types,
 argument lists, dimensions and schemes""",
"""The tests compare a handful of final field values for fixed suites; a swapped pair of arguments of equal type, an
 off-by-one section or a stale local copy is invisible unless the sampled values happen to expose it.""",
[S+"suite_objects.py", S+"metavar.py", S+"ddt_library.py", S+"host_model.py", S+"host_cap.py"],
[("Scheme.analyze / call lists", S+"suite_objects.py"), ("VarDictionary.find_variable, Var.call_string", S+"metavar.py"),
 ("DDT member lookup", S+"ddt_library.py"), ("host cap argument lists", S+"host_cap.py")],
[CAPW])

prop("P03", "capgen converts units, kinds and vertical direction on the way in and back",
"""When a scheme declares a variable with other units, another real kind or the opposite vertical direction than
 the host, the scheme receives the host's value converted to what it declared, and what it writes is converted back
 before anybody else can see it. An input-only argument leaves the host's data untouched, an output-only argument
 never depends on it, and the conversion is applied once in each direction, for the same elements.""",
["programs", "inputs"],
"""all real field values and extents within the bound (symbolic), for every intent, rank, unit pair and combination of
 unit, kind and flip transforms the generator supports""",
"""The only end-to-end test uses a few unit pairs with one set of values; wrong direction, double conversion or a missing
 copy-back for another intent or rank is not reached.""",
[S+"suite_objects.py", S+"var_props.py", "scripts/conversion_tools/unit_conversion.py"],
[("VarCompatObj forward/reverse transform", S+"var_props.py"), ("Scheme.add_var_transform/write_var_transform", S+"suite_objects.py")],
[CAPW])

prop("P04", "capgen passes conditionally active variables only when they are active",
"""A variable the host marks as conditionally active is handed to a scheme's optional argument as present exactly when
 its condition is true at that moment; when it is false the argument is absent and the host's storage is neither read
 nor written, with or without unit transforms. When it is true, the scheme works on the host's own data, in every
 intent.""",
["programs", "inputs"],
"""all truth values of the conditions and all field values (symbolic), for every intent, with and without transforms""",
"""The tests fix the activity flags for the whole run, so the inactive branch of most combinations is never
 executed.""",
[S+"suite_objects.py", S+"metavar.py"],
[("Scheme.add_var_pointer/associate_optional_var/...", S+"suite_objects.py"), ("Var.conditional", S+"metavar.py")],
[CAPW])

prop("P05", "A scheme error stops the phase and reaches the host unchanged",
"""If any scheme reports a nonzero error code, no further scheme of that phase call is executed, not even in remaining
 iterations of a subcycle, and the host receives exactly that error code and message. If no scheme reports an
 error the host receives error code zero and an empty message.""",
["programs", "fault_sequences"],
"""every assignment of error codes to every scheme invocation (symbolic), for every phase and for suites built from a
 bounded grammar""",
"""The tests inject at most one error; the guard must be there before every call in every phase.""",
[S+"suite_objects.py", S+"host_cap.py", S+"ccpp_suite.py"],
[("errflg guard around each scheme call", S+"suite_objects.py"), ("host cap errflg/errmsg arguments", S+"host_cap.py")],
[CAPW])

prop("P06", "A capgen suite accepts phase calls only in the documented lifecycle order",
"""A generated suite starts uninitialized; init is accepted only then, timestep init only after init or after a
 timestep final, run and timestep final only inside a time step, and finalize only outside one after init. Any call in
 another state returns a nonzero error code with a message, calls no scheme and leaves the state unchanged.
 Suites in one host keep independent states.""",
["histories", "programs"],
"""every suite state (symbolic) and every phase call made in it, hence every history of calls, for suites built from
 a bounded grammar""",
"""Unit tests call the phases in the legal order (plus one or two illegal calls); the state space of histories is not
 sampled.""",
[S+"ccpp_state_machine.py", S+"state_machine.py", S+"suite_objects.py", S+"ccpp_suite.py"],
[("CCPP_STATE_MACH transitions", S+"ccpp_state_machine.py"), ("state check and update in Group.write", S+"suite_objects.py")],
[CAPW])

prop("P07", "Host cap dispatches by suite and part name and rejects unknown names",
"""A call of the host interface reaches exactly the suite it names (ignoring trailing blanks) and, for run, exactly the
 part of that suite it names. Any other suite or part name gives a nonzero error code, a message containing the
 offending name, and no scheme call or change of data.""",
["inputs", "programs"],
"""all suite-name and part-name strings (symbolic), for hosts with one to three suites with shared part names""",
"""Tests call with the correct names and one wrong name.""",
[S+"host_cap.py"],
[("suite/part dispatch in write_host_cap", S+"host_cap.py")],
[CAPW])

prop("P08", "Generated query interfaces report exactly the suites, parts, schemes, variables",
"""The generated query routines list exactly (each once) the suites given, the parts of a suite, the schemes a suite
 uses, and the standard names of the host variables it requires, selected as input and output by how the schemes of each part use
 them; when structure elements are requested, derived-type objects and arrays with named sections are replaced by their named elements.
 For an unknown suite they return a nonzero error code and a message naming it.""",
["programs", "inputs"],
"""all suite-name strings and all combinations of the optional selection flags (symbolic), for suites built from a
 bounded grammar""",
"""The tests compare the lists of four fixed suites; the in/out classification of other intent sequences and flag
 combinations is not reached.""",
[S+"ccpp_suite.py", S+"host_cap.py"],
[("API.write_suite_part_list_sub / write_req_vars_sub / write_suite_schemes_sub", S+"ccpp_suite.py")],
[CAPW])

prop("P09", "Debug caps reject wrongly sized arrays before the scheme runs, and only those",
"""With debug checks enabled, a host array passed to a phase whole whose size differs from the product of its declared dimensions
 makes the phase return a nonzero error code and a message naming the array before the first scheme using it runs; this applies to a
 conditionally active array only while it is active. If every array has its declared size the caps behave exactly as without the checks: the
 checks report nothing, touch nothing and change nothing.""",
["inputs", "programs"],
"""all values of the dimension variables and all actual array extents and lower bounds within the bound (symbolic)""",
"""Tests always pass arrays of the right size; the error branches never run.""",
[S+"suite_objects.py"],
[("Scheme.add_var_debug_check / write_var_debug_check", S+"suite_objects.py")],
[CAPW])

prop("P10", "Suite-owned variables live as long as their producer and consumers need",
"""A variable that schemes produce and consume but the host does not provide is owned by the suite: it is allocated with the
 declared extents before its first use, every later scheme sees the value last written (its default value if it has only
 that), also across groups and phases, and variables of persistence "run" survive time steps. It is never allocated twice, used before allocation or
 after it is freed, in any legal sequence of phase calls including re-initialisation after finalize.""",
["programs", "histories"],
"""every legal sequence of phase calls up to the bound and all field values (symbolic), for variables produced in init,
 timestep init, run of one group and consumed in the same or another group""",
"""Tests run one legal sequence, once, and never re-initialise.""",
[S+"ccpp_suite.py", S+"suite_objects.py"],
[("SuiteVars / Group.manage_variable, allocation and deallocation code", S+"suite_objects.py"), ("Suite.analyze", S+"ccpp_suite.py")],
[CAPW])

# ---------------------------------------------------------------- Python: analysis of metadata
prop("P11", "Variables are matched only if they can stand for each other",
"""A scheme argument and the variable with its standard name, or two declarations of one standard name, are accepted
 together only if type, character length and dimensions agree (horizontal dimension and horizontal loop extent count as the
 same) and units and kind agree or have a supported conversion; any other mismatch, and an argument that writes a protected
 variable, is rejected with an error. They are
 reported as needing no conversion only if units, kind, vertical direction, dimensions and their order agree, and the verdict
 does not depend on which of the two is asked.""",
["inputs"],
"""all pairs of declarations with attribute values within the bound (symbolic type, kind, units, rank, direction)""",
"""Unit tests compare a few dozen fixed pairs.""",
[S+"var_props.py", S+"metavar.py"],
[("VarCompatObj", S+"var_props.py"), ("Var.compatible", S+"metavar.py")],
["generator exit status / error log"])

prop("P12", "Unit conversions are physically right and inverse to each other",
"""Every unit conversion the framework offers computes the physically right value for every input, and converting
 there and back returns the original value. The rule found for a pair of unit strings is the one from the first
 to the second unit, and a pair without a rule is rejected. The units of a tendency are those of its constituent per second.""",
["inputs", "configurations"],
"""all real inputs (symbolic) for every conversion rule and all ordered pairs of units the framework knows""",
"""Unit tests check one conversion formula as text.""",
["scripts/conversion_tools/unit_conversion.py", S+"var_props.py", S+"mkstatic.py", S+"mkcap.py"],
[("<from>__to__<to> rules", "scripts/conversion_tools/unit_conversion.py"), ("VarCompatObj._get_unit_convstrs", S+"var_props.py"),
 ("Var.convert_to/convert_from", S+"mkcap.py")])

prop("P13", "capgen rejects metadata that disagrees with the Fortran source, and only that",
"""Generation fails if the argument metadata of a scheme entry point differs from its Fortran dummy arguments in presence,
 order, type, kind (an undeclared real kind counts as kind_phys), intent, rank or optionality, or names a module variable or
 derived-type component that the source declares otherwise; an optional dummy argument may be absent from the metadata.
 It also fails if either side has an entry point the other lacks or a scheme is defined twice.
 Metadata that agrees with the source is accepted, whatever the style of the declarations.""",
["programs", "inputs"],
"""all combinations of declared name, type, kind, intent, rank and optional attribute on both sides, every place in the list and every declaration style within the bound""",
"""The unit tests hold about fifteen fixed mismatches.""",
[S+"ccpp_capgen.py", "scripts/fortran_tools/parse_fortran.py", "scripts/fortran_tools/parse_fortran_file.py"],
[("compare_fheader_to_mheader, check_fortran_against_metadata, var_comp, dims_comp", S+"ccpp_capgen.py"), ("FtypeCharacter, FtypeTypeDecl, parse_fortran_var_decl", "scripts/fortran_tools/parse_fortran.py"), ("parse_fortran_file", "scripts/fortran_tools/parse_fortran_file.py")])

prop("P14", "Metadata attribute values are accepted exactly when they are well formed",
"""A metadata attribute value (identifier, standard name, units, dimensions, Fortran reference or local name, type, default
 value, logical, intent, molar mass, diagnostic name) is accepted exactly when it is well formed under the documented grammar, and a
 malformed value is rejected with an error rather than silently taken, altered or crashing the parser.""",
["inputs"],
"""all attribute strings up to the length bound over the alphabet (symbolic characters)""",
"""Doctests and unit tests hold some tens of sample strings per validator.""",
["scripts/parse_tools/parse_checkers.py", S+"var_props.py"],
[("check_* validators", "scripts/parse_tools/parse_checkers.py"), ("VariableProperty.valid_value", S+"var_props.py")])

prop("P15", "The Fortran reader sees the statements the compiler sees",
"""Reading a free-form Fortran source yields exactly the statements a compiler would see: comments are dropped,
 continued lines are joined, statements separated by semicolons are split and character literals are kept intact,
 whatever '!', '&', ';' or quote characters they hold.""",
["inputs"],
"""all source fragments up to the length bound over an alphabet of structural and ordinary characters (symbolic)""",
"""Tests parse a few well-behaved sample files.""",
["scripts/fortran_tools/parse_fortran_file.py"],
[("read_file / read_statements / line continuation", "scripts/fortran_tools/parse_fortran_file.py")])

prop("P16", "Preprocessor conditionals select the same lines as cpp",
"""Given the preprocessor definitions, the Fortran reader keeps exactly those lines that the C preprocessor keeps, for
 nested conditional blocks, else branches, definedness tests, boolean combinations and integer comparisons of defined macros, taking
 #define and #undef lines of that file into account. Malformed nesting (unmatched or unclosed conditionals) is reported as an error.""",
["inputs", "configurations"],
"""all definedness and integer values of the macros (symbolic) and all directive sequences up to the bound""",
"""Doctests evaluate a dozen fixed conditions.""",
["scripts/parse_tools/preprocess.py", "scripts/fortran_tools/parse_fortran_file.py"],
[("PreprocStack", "scripts/parse_tools/preprocess.py")])

prop("P17", "Wrapped Fortran output means the same as the unwrapped statement",
"""However long a statement is, the Fortran writer's output consists of lines no longer than the limit whose continuation-joined
 text is the original statement, with character literals unchanged and comments never swallowing code. A
 statement is never silently truncated.""",
["inputs"],
"""all statements up to the length bound over quotes, separators, blanks and ordinary characters, for all small line limits
 (symbolic characters)""",
"""Unit tests compare the wrapping of two fixed sample files.""",
["scripts/fortran_tools/fortran_write.py"],
[("FortranWriter.write, find_best_break", "scripts/fortran_tools/fortran_write.py")])

prop("P18", "Scheme entry points are recognised by phase suffix, in all documented spellings",
"""A scheme subroutine name is split into scheme name and phase exactly as documented: the (case-insensitive) suffixes for
 register, init/initialize, timestep init/initialize, run, timestep final/finalize and final/finalize map to their phase,
 the longest suffix wins, and a name without such a suffix belongs to no phase.""",
["inputs"],
"""all identifiers up to the length bound (symbolic characters) with every suffix spelling""",
"""Tests use the suffixes of the sample schemes.""",
[S+"ccpp_state_machine.py", S+"state_machine.py"],
[("StateMachine.function_match/transition regex", S+"state_machine.py")])

# ---------------------------------------------------------------- Fortran run-time library
prop("P19", "The constituent registry keeps a consistent bijective index of its constituents",
"""After registration and locking, every registered constituent has a unique index in 1..N with the advected ones first,
 and looking it up by name, by index or through a properties object always gives the same constituent with the properties
 and field data it was registered with. Gathering or scattering a selection of constituents moves exactly the matching
 fields. A conflicting registration, a registration before initialization or after locking, an unknown mixing ratio type, a
 second instantiation or locking out of order is reported as an error, an unknown name never yields a valid index, and
 reset or re-initialization returns to the unused state.""",
["inputs", "histories"],
"""all property values, advection flags and name equalities (symbolic) of up to a bounded number of constituents, and
 all bounded histories of the interface calls""",
"""The advection test registers a fixed list of constituents in one order.""",
["src/ccpp_constituent_prop_mod.F90"],
[("ccpp_model_constituents_t", "src/ccpp_constituent_prop_mod.F90"), ("ccpp_constituent_properties_t", "src/ccpp_constituent_prop_mod.F90")])

prop("P20", "The hash table is a map: lookups find exactly what was inserted",
"""For any keys and any hash collisions, a key lookup returns the object inserted under that key and an
 error for any other key, inserting a duplicate key is an error that leaves the table unchanged, and iterating visits every
 inserted object exactly once and terminates, also for an empty table. Clearing leaves an empty reusable table.""",
["inputs", "histories"],
"""all key hash patterns (symbolic bucket for every key, symbolic equality of keys) for up to a bounded number of
 insertions and lookups""",
"""The Fortran test inserts six fixed keys into one table; collision patterns and the empty table are not
 covered.""",
["src/ccpp_hash_table.F90", "src/ccpp_hashable.F90"],
[("hash_table_add_hash_key, hash_table_table_value, iterator", "src/ccpp_hash_table.F90")])

# ---------------------------------------------------------------- prebuild
prop("P21", "prebuild caps run schemes in suite order, once initialised, and stop on error",
"""A prebuild static cap called for a suite, group and phase executes exactly the schemes of the suite definition in
 order, repeating subcycles with the loop counter set, and stops at the first error, which the caller sees. Init happens at most once per
 model instance until finalize, and timestep or run calls on an uninitialised instance return an error and call no
 scheme. Unknown suite or group names return an error.""",
["programs", "histories", "fault_sequences", "inputs"],
"""all error codes, suite and group name strings, instances and instance states (symbolic), for suite definitions from a bounded grammar""",
"""The prebuild tests run one fixed suite, successfully, once.""",
[S+"mkstatic.py", S+"ccpp_prebuild.py"],
[("API.write, Suite.write, Group.write", S+"mkstatic.py")],
["generated ccpp_static_api.F90, ccpp_<suite>_cap.F90, ccpp_<suite>_<group>_cap.F90"])

prop("P22", "prebuild caps pass each scheme the host data it asks for, converted both ways",
"""In a prebuild cap every scheme argument is the host variable with the same standard name; blocked host data is
 gathered before and scattered after the call, unit conversions are applied on the way in and reversed on the
 way out, and inactive conditional variables are neither touched nor passed. Input-only data stays
 unchanged and nothing else is modified.""",
["programs", "inputs"],
"""all field values, activity conditions and block sizes within the bound (symbolic), for every intent and combination of
 transforms""",
"""Tests use fixed data with one transform at a time.""",
[S+"mkstatic.py", S+"mkcap.py", S+"metadata_parser.py"],
[("Group.write transforms", S+"mkstatic.py"), ("Var in mkcap", S+"mkcap.py")],
["generated ccpp_<suite>_<group>_cap.F90"])

# ---------------------------------------------------------------- Tools and files
prop("P23", "Datatable reports agree with the generated suites",
"""For every set of suites, the data-table query tool reports exactly the generated files, the suites, the modules and
 processes of the schemes they use, the dependencies of the scheme and host tables, and the host variables, each once; for
 a suite it reports exactly the required, input (in or inout) and output (out or inout) variables of the argument lists of
 its own parts, never another suite's, and nothing for an unknown suite. Protected host variables are left out of variable
 lists exactly when that is requested, and items are joined by the requested separator.""",
["inputs", "configurations"],
"""all intents and name coincidences (symbolic) of the variables of up to three suites with shared group and scheme names""",
"""The tests compare the reports of fixed single-suite tables.""",
[S+"ccpp_datafile.py"],
[("datatable_report", S+"ccpp_datafile.py"), ("generate_ccpp_datatable", S+"ccpp_datafile.py")])

prop("P24", "Generated files always end up current, and unchanged ones are left alone",
"""After a capgen or prebuild run every generated source, build snippet and include file holds exactly its new contents, whatever
older version (missing, any contents, size or time stamp) was there before, and no temporary or staging files stay behind.
A capgen source whose contents did not change is left untouched unless overwriting is asked for. A prebuild cap, include
file or set of build snippets is left untouched when neither it nor a cap it builds on changed.""",
["histories", "inputs"],
"""all previous states of the output directory: each file missing, identical or different in contents, size and age (symbolic)""",
"""Tests generate into empty directories.""",
["scripts/file_utils.py", S+"ccpp_capgen.py", S+"ccpp_prebuild.py", S+"mkstatic.py"],
[("move_modified_files", "scripts/file_utils.py"), ("capgen", S+"ccpp_capgen.py"), ("generate_typedefs_makefile, generate_schemes_makefile, generate_caps_makefile", S+"ccpp_prebuild.py"), ("Group.write, Suite.write, API.write, API.write_includefile", S+"mkstatic.py")])
prop("P25", "Activity conditions keep their meaning when translated to local names",
"""The Fortran condition generated for a conditionally active variable has, for all values of the host
 variables, the same truth value as the condition in the metadata with every standard name replaced by the host variable of
 that name. A condition with an unknown name is rejected.""",
["inputs", "programs"],
"""all conditions up to the length bound built from names, numbers, operators, blanks and parentheses (symbolic
 tokens)""",
"""Unit tests translate a handful of conditions.""",
[S+"metavar.py", S+"mkstatic.py", S+"metadata_parser.py", "scripts/parse_tools/fortran_conditional.py"],
[("Var.conditional", S+"metavar.py"), ("Group.write conditionals", S+"mkstatic.py"), ("FORTRAN_CONDITIONAL_REGEX", "scripts/parse_tools/fortran_conditional.py")])

prop("P26", "The combined intent of a shared variable covers every scheme's use of it",
"""When several schemes of a group or phase use the same variable, the intent of the combined argument is the intent they all
 declare if they agree and inout otherwise, so that it is never weaker than any use. The result does not depend on the order in which the
 schemes appear, on the local names they use, or on how many schemes there are.""",
["programs", "inputs"],
"""all sequences of intents (symbolic) up to the bound, over schemes, groups and phases""",
"""Tests hold a few sequences of intents.""",
[S+"metavar.py", S+"suite_objects.py"],
[("VarDictionary.add_variable / Var.adjust_intent", S+"metavar.py")])

prop("P27", "The generated constituent interface moves data between host and suite losslessly",
"""The generated constituent routines register exactly the constituents of the host, of the suites and those that schemes create when their suite
 is registered, and report an error for an unknown suite, a conflicting registration or an unknown constituent. Gather followed by update returns the
 host's constituent fields unchanged, and index, existence and property lookups agree with the registered set. Scheme arguments that are constituents
 or tendencies of constituents are bound to the registered field of that name, on the columns of the call.""",
["programs", "inputs", "histories"],
"""all field values and error codes (symbolic), for suites with bounded sets of constituents and call histories""",
"""The advection test runs one fixed history.""",
[S+"constituents.py", S+"host_cap.py", "src/ccpp_constituent_prop_mod.F90"],
[("ConstituentVarDict.write_*", S+"constituents.py"), ("host constituent routines", S+"host_cap.py")],
[CAPW])

prop("P28", "What the generators write depends only on their inputs",
"""Running capgen or ccpp_prebuild again on the same metadata, Fortran sources, suite definitions and options writes the same files with the same
 contents, byte for byte. The order in which the interpreter visits sets (string hashing is random for each process) or a file system
 lists a directory never shows in the caps, the datatable, the build fragments or the outcome of the run.""",
["inputs", "histories"],
"""all programs of the scenario library and, symbolically, every choice of the place whose visits are reordered and of the reordering""",
"""Each test process has one random hash seed and compares with nothing another process wrote; on most seeds most orders agree.""",
[S+"ccpp_capgen.py", S+"metavar.py", S+"suite_objects.py", S+"host_cap.py", S+"ccpp_datafile.py", S+"ccpp_prebuild.py", S+"mkstatic.py", S+"metadata_parser.py", S+"file_utils.py"],
[("Var.get_dim_stdnames", S+"metavar.py"), ("Group.write, Scheme.analyze", S+"suite_objects.py"), ("generate_ccpp_datatable", S+"ccpp_datafile.py"),
 ("generate_list_of_schemes_and_dependencies_to_compile", S+"ccpp_prebuild.py"), ("create_file_list", S+"file_utils.py")])
prop("P29", "Prototype metadata describes the Fortran source it is written for",
"""ccpp_fortran_to_metadata writes for every annotated scheme routine, derived type and module of a source one table or section of the right name and
 type, listing its variables in order with their types, kinds, intents, ranks and optionality, so that capgen accepts the prototype for that source as it
 stands. Every variable gets a standard name of its own; a dimension given by an earlier argument carries that argument's standard name
 and no dimension carries the name of an unrelated variable. The result does not depend on what else is there (unannotated types, routines and variables, other modules and files).""",
["inputs"],
"""names and kinds with symbolic characters, every type, intent, rank, optionality and style of declaration, every mixture of types, module data and routines in one or two modules or files""",
"""The script has no tests at all; which combination of attributes and tables loses information depends on the whole source.""",
[S+"ccpp_fortran_to_metadata.py", S+"fortran_tools/parse_fortran_file.py", S+"fortran_tools/parse_fortran.py", S+"parse_tools/parse_checkers.py", S+"metadata_table.py"],
[("write_metadata_file, parse_fortran_files", S+"ccpp_fortran_to_metadata.py"), ("parse_module, parse_specification, parse_type_def, parse_scheme_metadata", S+"fortran_tools/parse_fortran_file.py"),
 ("parse_fortran_var_decl", S+"fortran_tools/parse_fortran.py"), ("reset_standard_name_counter, unique_standard_name", S+"parse_tools/parse_source.py")])
prop("P30", "Variable tracking reports exactly the uses of a variable in a suite",
"""For any suite, scheme metadata and queried standard name, ccpp_track_variables lists, group by group and in the order of the suite's calls
 (the schemes of a subcycle once per iteration), exactly the entry points that have an argument of that standard name, each with that argument's
 intent. When there is none it reports no use, and names exactly the entry points and standard names that contain the query. The layout of the metadata files
 (several schemes in one file, other tables, comments, dependencies, names that begin alike) does not matter; a scheme without metadata stops the tool.""",
["inputs"],
"""standard names and queries with symbolic characters, all intents, every suite of a family of shapes (loops, repeated schemes), every layout of files of a family""",
"""The tests look at four queries of one suite and compare messages line by line only as far as the shorter of the two goes.""",
[S+"ccpp_track_variables.py", S+"mkstatic.py", S+"metadata_table.py"],
[("create_var_graph, create_metadata_filename_dict, track_variables", S+"ccpp_track_variables.py"), ("Suite.parse (call tree)", S+"mkstatic.py"), ("find_scheme_names", S+"metadata_table.py")])
prop("P31", "Generated documentation lists the variables as their metadata says",
"""The tables ccpp_prebuild writes of the host's variables (HTML) and of all provided and requested variables (LaTeX), and the pages metadata2html writes for a metadata file,
 hold exactly one entry per variable (one page per table with variables, one row per variable in its order; the prebuild lists sorted by standard name), with its names, description, units, type, kind,
 rank or dimensions, intent, place of definition and requesting entry points (MISSING and NOT REQUESTED where there is none). Every attribute
 reads as the metadata has it, whatever characters it holds (markup and TeX characters are escaped).""",
["inputs"],
"""names and descriptions with symbolic characters (including all special ones), all types, kinds, ranks and intents, every mixture of provided and requested variables""",
"""No test looks at the documentation; special characters only show for the variable that has them.""",
[S+"mkdoc.py", S+"metadata2html.py", S+"metadata_table.py", S+"common.py"],
[("metadata_to_html, metadata_to_latex", S+"mkdoc.py"), ("convert_to_html", S+"metadata2html.py"), ("MetadataSection.to_html", S+"metadata_table.py"), ("escape_tex, decode_container", S+"common.py")])

prop("P32", "prebuild tells the build system every file to compile, once",
"""The makefile, CMake and shell lists ccpp_prebuild writes name the same files: for the schemes, the files of the schemes the suites use, the dependencies
 of these schemes and of the host's tables, and the variable definition files; for the caps, the caps it wrote; for the types, the modules with type or kind definitions.
 Each is named exactly once, with its absolute path (modules: name.mod in lower case), in the makefile under the variable of its extension (.f, .F, .f90, .F90), and nothing else is named.""",
["inputs", "configurations"],
"""all sets of used schemes, dependencies and shared files up to the bound (symbolic), file names, extensions, module and type names with symbolic characters""",
"""Tests run prebuild but never read the lists.""",
[S+"ccpp_prebuild.py", S+"mkcap.py"],
[("filter_metadata, generate_list_of_schemes_and_dependencies_to_compile, generate_*_makefile", S+"ccpp_prebuild.py"), ("SchemesMakefile, CapsMakefile, TypedefsMakefile and their CMake and shell forms", S+"mkcap.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in sorted(P, key=lambda x: x["id"]):
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
