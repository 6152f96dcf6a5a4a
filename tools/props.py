EX = "bounded exhaustive enumeration of inputs and configurations, run through the real command line, against a reference model"
PROPS = []
NOT_APPLICABLE = {}
NOTES = "Every check builds /repo's working tree; see DESIGN.md."

def P(**k):
    PROPS.append(k)

P(id="C05", title="Naming rules decide every generated Go name exactly",
  statement="For any list of naming rules, the Go name of every macro, enum constant, type, function, parameter and struct field is its C name passed through the rules of `global`, then of its own target, then of `post-global`, then (functions and fields: `public`; parameters: `private`) of the visibility target, each list in order, each rule rewriting every match of its regexp with its expanded replacement and its transform (lower, upper, title, export, unexport; `snakecase` builtin). A result that is a Go keyword is escaped, so no rule list yields a generated file in which a keyword stands as a name.",
  over=["inputs", "configurations"],
  quant="every rule of an alphabet of 9 patterns x 5 replacements x 6 transforms on each of 7 targets, all ordered pairs (thorough: triples) of a smaller alphabet within and across targets, over 13 name shapes in 6 positions; Go keywords as C names in 7 positions",
  why="the repository's tests call the AST walker on a handful of declarations and never run the rule engine; the space is rule lists x names",
  files=["translator/translator.go", "translator/rules.go", "translator/helpers.go"],
  mech=[("rule pipeline", "translator/translator.go TransformName"), ("keyword escape", "translator/helpers.go blessName, translator.go"), ("rule compilation", "translator/translator.go getRuleActionRxs")],
  observe=["names in the generated .go files"],
  technique=EX, level="exploration",
  note="All rule lists within the alphabet are run through the real tool and every name is compared with a 60-line reference implementation; rule lists that collide names or produce non-identifiers are outside the property.")

P(id="C06", title="Accept and ignore rules select exactly the declarations they name",
  statement="A declaration is generated exactly when the rules of its target (constants: macros and enum constants; types: typedefs; functions; for tagged structs without a typedef both type and public; for const variables public) match it with an accept rule and no ignore rule; when no rule of that target matches, the `global` rules decide the same way, and with no match at all it is left out. Rules with other actions never influence the selection, and a macro that refers to another macro is generated only if that one is selected too.",
  over=["inputs", "configurations"],
  quant="every single rule and ordered pair of accept/ignore rules over 5 patterns x 5 targets, triples of a smaller alphabet, and mixes with non-filter rules, over 9 names in each of 11 declaration kinds",
  why="no test runs filters; precedence between targets and actions is a property of rule lists, not of samples",
  files=["translator/translator.go", "generator/generator.go", "generator/gen_const.go"],
  mech=[("filter decision", "translator/translator.go IsAcceptableName"), ("per-kind use", "generator/generator.go WriteConst, WriteTypedefs, WriteDeclares")],
  observe=["declarations present in the generated .go files"],
  technique=EX, level="exploration",
  note="Every rule list within the bounds is run through the real tool; each of ~108 declarations is compared with the reference selection.")

P(id="C07", title="Constants have the value the C compiler gives them",
  statement="For every macro and enum constant and every const-qualified definition that is generated, under each of the `cgo`, `expand` and `eval` constant rules and with or without cgo, the Go constant is numerically (or textually, for strings) equal to the C value and has a Go type that can hold it. Macros that have no constant value are left out or refer to the C macro, they never turn into something else.",
  over=["inputs", "configurations"],
  quant="every literal form (base x digits x suffix, character escapes, strings, floats), every unary operator, every ordered pair of binary operators, references to macros, enum constants and enum types, casts; enumerations of every length-3 pattern of implicit, literal and referring members in 6 declaration styles; const definitions of every base type; times 3 constant rules and both modes",
  why="tests compare a few texts; the property is about all expressions and how three separate evaluation paths agree with a C compiler",
  files=["generator/gen_const.go", "translator/translator.go", "translator/helpers.go", "translator/model_declaration.go"],
  mech=[("macro expansion", "translator/translator.go collectDefines"), ("expression evaluation", "translator/model_declaration.go, translator/helpers.go"), ("emission", "generator/gen_const.go")],
  observe=["const.go and types.go of the generated package, evaluated with go/types"],
  technique=EX + " (the oracle is the installed C compiler)", level="exploration",
  note="Every expression of the grammar within the bounds is generated by the real tool, evaluated with go/types, and compared with what gcc computes for the same text; 51 textual-expansion defects of the current tree are listed as known findings by exact expression.")

P(id="C16", title="Every source path and include resolves to exactly one file, or the run fails",
  statement="A relative source path is looked up in the include paths in order, then as given relative to the working directory; an absolute one is used as it is; a path that does not exist makes the run fail with a message that names it. The first candidate in that order is the one whose declarations are generated, and each declaration of a header reached several times (through sources or nested includes) is generated once.",
  over=["inputs", "configurations"],
  quant="every placement of a header in every subset of the candidate directories x every ordered include list x every way to name it (plain, nested, dotted, absolute), nested quoted and angle includes, and orders of several sources",
  why="tests parse one file in one place; precedence between competing candidates needs all placements",
  files=["parser/parser.go", "process.go", "generator/generator.go"],
  mech=[("path resolution", "parser/parser.go checkConfig, findFile"), ("translation unit assembly", "parser/parser.go ParseWith")],
  observe=["declarations in the generated files, exit status, standard error"],
  technique=EX, level="exploration",
  note="All placements within the bounds are run; the expected file is computed by a reference of the lookup order.")

P(id="C17", title="Defines take effect exactly as configured, over the host compiler's",
  statement="A define of the manifest has the meaning of `-D` on the C compiler's command line: integers, floats and strings keep their value, an empty mapping (`{}`) removes the macro. It overrides a predefined macro of the host compiler (`-ccdefs`), every other host macro stays visible, and the header sees the same value that ends up in the generated constant.",
  over=["inputs", "configurations"],
  quant="every assignment of 17 value forms to two macro names x what the host compiler predefines for them x what the header does with them, with and without host defines",
  why="tests never pass defines; the interplay of three sources of a macro is a product space",
  files=["parser/parser.go"],
  mech=[("define assembly", "parser/parser.go ParseWith"), ("host defines", "parser/parser.go hostCppConfig")],
  observe=["constants in const.go that report what the header saw"],
  technique=EX, level="exploration",
  note="Every assignment within the bounds is run through the real command line with a scripted host compiler.")

P(id="C18", title="Exactly the needed output files are written, and a failed write is reported",
  statement="The package consists of exactly the files its declarations need (types, constants, helpers, C sources, main file, doc), in <out>/<package path>, independent of what the output directory contained before. Files that have nothing to do with the package stay untouched. If any of the needed files cannot be created or written, the run says so and exits with a nonzero status; it never reports success with a missing or partial file.",
  over=["configurations", "fault_sequences"],
  quant="every subset of the declaration kinds x cgo mode x description x package path; every prior content of each output; every single fault and pair of faults (7 obstacle kinds: directories, dangling links, unwritable devices, full devices) on every output file and directory; writes torn at many sizes (file size limit; thorough: every size)",
  why="tests never run the command line nor inject a failing write; the file set is decided by several flags computed in different writers",
  files=["process.go", "main.go", "generator/generator.go", "generator/gen_files.go"],
  mech=[("file set decision", "process.go Generate, Flush"), ("formatting and writing", "process.go flushBufferToFile")],
  observe=["the output directory, exit status, standard error"],
  technique="bounded exhaustive fault enumeration: every output x every obstacle (and pairs), plus every declaration-kind subset, run through the real command line against a reference of the file set", level="fault_enumeration",
  note="Faults are injected with real file system obstacles; crash points in the middle of the formatting step are not injected (outputs are rewritten in place, the property does not promise atomicity).")

P(id="C19", title="License, description and banner are carried into the output verbatim",
  statement="Every generated file starts with the configured license as comment lines, then the generated-code banner (with the generation time exactly when timestamps are on), and belongs to the package named by the last element of the configured package path; the description becomes the package comment of doc.go with its text intact. None of these texts can change the meaning of a file, whatever they contain.",
  over=["inputs", "configurations"],
  quant="9 licenses x 6 descriptions (comment ends, percent signs, multi-line, non-ASCII) x 2 package paths x timestamps x cgo mode, all declaration kinds present",
  why="no test sets a license or description; texts with comment or format characters break only particular writers",
  files=["generator/gen_files.go", "generator/generator.go", "process.go", "main.go"],
  mech=[("header writers", "generator/gen_files.go WriteDoc, WritePackageHeader, genLabel"), ("package name", "process.go")],
  observe=["leading comments and package clause of each output"],
  technique=EX, level="exploration",
  note="Full product within the alphabets; every file of every run is parsed and compared with the texts.")

P(id="C20", title="The cgo preamble carries every configured flag and include in order",
  statement="Every generated Go file that uses C has, in its cgo preamble, one #cgo line per flag group and trait with exactly the configured flags, one pkg-config line with the configured packages, then the system includes and the local includes in the configured order, and the helper header last, so that the C compiler sees what the manifest says and nothing else (stdlib.h is added when missing).",
  over=["configurations"],
  quant="all arrangements of up to two (thorough: three) of 8 flag groups with and without traits x pkg-config lists x 6 system include lists x 4 local include lists",
  why="no test checks preambles; whether stdlib.h is added, or a trait is lost, depends on the combination",
  files=["generator/gen_files.go", "generator/generator.go"],
  mech=[("preamble writer", "generator/gen_files.go WriteIncludes, writeFlagGroup"), ("helper header", "generator/gen_files.go writeCHHelpersHeader, writeCCHelpersHeader")],
  observe=["comment above import \"C\" in each Go file, #include lines of the helper header"],
  technique=EX, level="exploration",
  note="Full enumeration within the bounds; preambles are parsed and compared line by line with the reference.")

P(id="C26", title="The array limit is chosen by -maxmem and is the same everywhere",
  statement="Every place where the generated code views C memory as a Go array uses the bound given with -maxmem when it is one of the supported limits and 0x7fffffff otherwise. Nothing else in the output depends on the flag.",
  over=["configurations", "inputs"],
  quant="every supported limit in both spellings, neighbours and malformed values x headers that need one or several memory views",
  why="no test sets the flag",
  files=["main.go", "generator/generator.go", "generator/gen_bindings.go", "process.go"],
  mech=[("limit selection", "generator/generator.go NewMemSpec, SetMaxMemory"), ("uses", "generator/gen_bindings.go")],
  observe=["array types in cgo_helpers.go and the main file"],
  technique=EX, level="exploration",
  note="Full product within the alphabets.")

P(id="C27", title="Several manifests in one run generate what each of them generates alone",
  statement="Running the tool on several manifests writes for each exactly what running it on that manifest alone writes, in any order and with repetitions. Given a directory instead of a manifest file, the manifest is the one in it that the documented lookup order selects.",
  over=["configurations", "histories"],
  quant="all ordered lists of up to 3 manifests of a pool of differing ones (rules, tips, options, failing ones), all subsets of candidate manifest names in a directory",
  why="tests run one translation per process; leaked state between manifests shows only in sequences",
  files=["main.go", "process.go", "translator/translator.go"],
  mech=[("manifest loop", "main.go main"), ("per-run state", "process.go NewProcess")],
  observe=["the output trees", "exit status"],
  technique=EX, level="exploration",
  note="All sequences within the bounds, each compared with the solo runs.")

P(id="C29", title="Ignored headers contribute nothing, all others contribute everything",
  statement="Declarations of every kind from a file whose path ends in one of the configured ignored suffixes are left out of the output, those of every other file are generated, and types from ignored files stay usable by the rest.",
  over=["configurations"],
  quant="every subset of ignored suffixes over a tree of five headers (nested, equal base names, suffixes of each other) with seven declaration kinds each",
  why="no test sets ignored paths; the decision is taken separately for each declaration kind",
  files=["translator/translator.go", "generator/generator.go", "generator/gen_const.go"],
  mech=[("ignore decision", "translator/translator.go IsTokenIgnored"), ("per-kind use", "translator/translator.go Learn, collectDefines")],
  observe=["declarations in the generated files"],
  technique=EX, level="exploration",
  note="Every subset within the tree is run and every declaration accounted for.")

P(id="C30", title="A broken manifest or header is reported and generates nothing",
  statement="An invalid regular expression, an unknown key value that has a fixed set of values, a malformed manifest, a missing mandatory section, an unparsable header or an unknown architecture makes the run end with a nonzero status and a message, without a crash and without writing a package that silently ignores the setting.",
  over=["configurations", "inputs"],
  quant="each defect of the alphabet injected at each place of a manifest where it can stand (rules by target x action x position, tips by scope and target, validations, parser options, architecture, YAML syntax) and each of a list of malformed headers",
  why="tests use valid inputs only",
  files=["main.go", "process.go", "parser/parser.go", "translator/translator.go", "translator/rules.go"],
  mech=[("manifest reading", "process.go NewProcess"), ("rule compilation", "translator/translator.go getRuleActionRxs, getPtrTipRxs"), ("parse errors", "parser/parser.go")],
  observe=["exit status, standard error, output directory"],
  technique=EX, level="exploration",
  note="Every defect at every place within the lists.")

P(id="C04", title="The tool ends in order whatever it is given",
  statement="Whatever the headers and the manifest contain - C declarations of any shape, text that is not C, directives in any order, settings of the wrong kind - the run ends, without a crash: it succeeds with exit status 0, or says what is wrong and exits with status 1.",
  over=["inputs", "configurations"],
  quant="all declarators of up to 2 (thorough 3) derivations over 7 forms x 21 base types x 6 positions; all sequences of up to 3 of 13 tokens and up to 4 of 9 (thorough: 4 of 13); all sequences of up to 2 (thorough 3) of 24 lines of preprocessor text; a manifest with every setting, with each of its values left out or replaced by each of 17 other values",
  why="tests use valid inputs only, and a panic or endless loop needs one particular shape",
  files=["main.go", "process.go", "parser/parser.go", "translator/translator.go", "translator/ast_walker.go", "translator/rules.go", "generator/generator.go"],
  mech=[("C types", "translator/ast_walker.go typeSpec, functionSpec, structSpec"), ("parse errors", "parser/parser.go ParseWith"), ("manifest reading", "process.go NewProcess")],
  observe=["exit status, standard error and duration of the command line"],
  technique=EX, level="exploration",
  note="Two endless loops of the parser dependency are known findings, by one representative each; token sequences with a * and no name are outside for that reason.")

P(id="C03", title="The generated package compiles",
  statement="For every combination of C declarations of supported shapes (scalars, strings, structs, unions, enums, callbacks, opaque types; const, pointers and arrays of them; as parameters, results, members, typedefs, callback parameters and variables) and every configuration of pointer, type and memory tips and string options, the generated package is accepted by the Go toolchain together with the C header. Every file carries exactly the imports and helpers that its declarations need, whatever the combination of declaration kinds in the header.",
  over=["inputs", "configurations"],
  quant="30 base types x const x 0..2 (thorough 3) pointer levels x 3 array shapes x 13 positions x 10 configurations; 65 names that Go or the generated code also uses x 5 positions, all pairs of 8 parameter names that names of the generated code are made from (and orders of three) x 3 positions x 3 type shapes, 32 special declarations; subsets of 10 declaration kinds as packages of their own under 3 option sets",
  why="the repository's tests never compile what they generate; the property ranges over the product of type shapes, positions and configurations",
  files=["generator/gen_bindings.go", "generator/gen_struct_helpers.go", "generator/gen_callbacks.go", "generator/gen_common.go", "generator/gen_files.go", "generator/gen_typedef.go", "generator/gen_union.go", "generator/gen_declares.go", "translator/translator.go", "translator/model_go_type.go", "translator/array_spec.go", "process.go"],
  mech=[("wrappers and helpers", "generator/gen_bindings.go getPackHelper, getUnpackHelper, proxyArgFromGo"), ("C and Go types", "translator/translator.go TranslateSpec, CGoSpec"), ("imports", "process.go Flush")],
  observe=["go build of the generated package with cgo"],
  technique="bounded exhaustive enumeration of declarations and configurations, generated by the real command line and judged by the Go and C compilers", level="exploration",
  note="Every declaration of the grammar is generated and compiled; shapes that never compiled (inline function pointers, multi-dimensional arrays of pointers or structs, typedefs of struct pointers and so on) are outside, one representative of each is listed as a known finding.")

P(id="C21", title="Function validations guard exactly the functions they name",
  statement="With a list of validations, the wrapper of a C function starts with the guard of the first validation that has a pattern matching the C name (patterns with look-around included) and calls the configured check; when it fails, the wrapper returns the configured values (or nothing). Functions that no pattern matches, and everything else in the package, are the same as without validations.",
  over=["configurations"],
  quant="all ordered lists of 1..3 patterns of an alphabet of 11 x 3 checks x 4 results over 10 functions of different shapes",
  why="no repository test configures validations",
  files=["generator/gen_declares.go", "translator/translator.go"],
  mech=[("guard emission", "generator/gen_declares.go writeFunctionBody"), ("pattern match", "translator/translator.go")],
  observe=["function bodies of the generated package"],
  technique=EX, level="exploration",
  note="Every list of validations within the bounds is generated by the real tool and every function body is compared with the reference.")

P(id="C28", title="Documentation names the C declaration and where it stands",
  statement="Every generated constant, type, function and variable appears once, with a comment that names it and refers to the file and line where the C header declares it; declarations of one kind and file come out in source order, whatever the order of names, the spread over included files or the gaps between them. Doc rules rewrite the reference: the rule of the declaration's own target, or the global one, with $path, $file, $line, $name and $goname expanded.",
  over=["inputs", "configurations"],
  quant="all arrangements of 3 (thorough 4) declarations of 9 kinds over 6 splits into 3 files and lines; doc rules of every template on every target, pairs of rules, both built-in rules",
  why="the repository's tests do not look at comments; positions depend on the whole layout of the headers",
  files=["translator/translator.go", "translator/helpers.go", "generator/gen_common.go", "generator/generator.go"],
  mech=[("reference text", "translator/translator.go SrcLocation"), ("comment emission", "generator/gen_common.go writeDocComment"), ("order", "generator/generator.go")],
  observe=["doc comments and declaration order of the generated files"],
  technique=EX, level="exploration",
  note="Every arrangement and rule list within the bounds is run through the real tool and every comment is compared with the position at which the harness wrote the declaration.")

P(id="C08", title="Go types represent the C types they stand for",
  statement="For every parameter, result, struct member, typedef and callback parameter, under every pointer, type and memory tip, the Go type has as many pointer levels, the same array dimensions at the same places and the same kind, size and signedness of element as the declared C type, however many typedefs it is spelled through. No choice of tips, qualifiers or typedef layers changes what is represented; tips only choose between equivalent Go forms (slice or pointer, string or bytes, named or plain).",
  over=["inputs", "configurations"],
  quant="63 base types x 6 kinds of typedef layer x const x 0-2 (thorough 3) pointers x 3 (5) array suffixes x 8 positions x 10 tip configurations, except C outside the tool's stated type model",
  why="the repository's tests translate a dozen specs; how qualifiers, typedefs, pointers and arrays combine is a product space",
  files=["translator/ast_walker.go", "translator/translator.go", "translator/type_mapping.go", "translator/model_go_type.go", "generator/gen_typedef.go"],
  mech=[("C type to spec", "translator/ast_walker.go typeSpec"), ("spec to Go type", "translator/translator.go TranslateSpec"), ("type table", "translator/type_mapping.go")],
  observe=["types in the generated .go files, resolved through the generated typedefs"],
  technique=EX + " (element kinds and sizes from the installed C compiler)", level="exploration",
  note="Every declaration of the product is translated by the real tool under every configuration and its Go type, resolved to a list of levels and a leaf, is compared with the declared C type; ~330 000 cases.")

RT = "exhaustive enumeration of calls on the real generated bindings, compiled with cgo against a recording C library, under a controlled garbage collector and heap"

P(id="C09", title="Tips choose the Go form of pointers, types and structs",
  statement="For every parameter, result, callback and struct member, the Go form of its pointers (`arr`, `ref`, `sref`, `inst`) and of its type (`plain`, `named`, `string`; enums: `unsigned`) is what the first tip entry of its scope (function; struct before type; enum), or else of `any`, whose target matches the name says for its position, else its default, else the built-in default; results and whole types take `self`, and a parameter without a type tip takes that of its own type. A raw memory tip turns the struct it names into the C type, an instance tip makes the parameter the receiver and leaves the others in place. The package compiles and calls C with the arguments in C's order under each of them.",
  over=["inputs", "configurations"],
  quant="every single tip entry of an alphabet of 5 scopes x 8 (thorough 11) targets x 5-7 lists x defaults x self, all ordered pairs (thorough: triples) of a reduced catalogue within a table and pairs across the three tables, over 17 declarations; each different effect is compiled; every position of a receiver among up to 3 parameters of every class, executed",
  why="no test configures a tip; precedence between entries, scopes, positions and defaults is a property of lists, and signatures and wrapper bodies are computed in different places",
  files=["translator/translator.go", "translator/rules.go", "generator/gen_common.go", "generator/gen_bindings.go", "generator/gen_callbacks.go", "generator/gen_struct_helpers.go", "generator/gen_typedef.go", "generator/gen_const.go"],
  mech=[("tip lookup", "translator/translator.go PtrTipRx, TypeTipRx, MemTipRx, TipRxsForSpec, TipAt, Self"), ("pointer split", "translator/translator.go TranslateSpec, translator/model_go_type.go splitPointers"), ("signatures", "generator/gen_common.go writeFunctionParams, writeInstanceObjectParam, writeStructMembers")],
  observe=["signatures, fields and types of the generated package", "result of compiling it", "arguments that C sees"],
  technique=EX + "; each distinct effect compiled with cgo, receivers executed", level="exploration",
  note="Every list within the bounds is run through the real tool and 15 declarations are compared with a 100-line reference. Two receivers in one list, receivers of pointer types of C (Go has no such methods) and tips of a kind that does not belong into the table are outside.")

P(id="C10", title="A generated function calls its C function with the caller's values",
  statement="Calling a generated function runs the C function exactly once with every argument, at every pointer depth, equal to the Go value in its position, and a nil pointer or slice as NULL; the arguments stay unchanged for as long as the call lasts. After the call the Go arguments hold what C wrote through them, keep their length and capacity, and the result is what C returned.",
  over=["inputs", "configurations"],
  quant="all parameter classes (33 scalars, 5 structs, strings, void*, opaque types, handles, enums x value, pointer, const pointer, double pointer, arrays) alone, all pairs of 17 and triples of 5 (thorough 8) representatives, all results, under 8 configurations, with all combinations of boundary and distinct value patterns",
  why="the repository's tests never call a generated binding; conversions depend on the combination of type, tip and neighbouring parameters",
  files=["generator/gen_bindings.go", "generator/gen_struct_helpers.go", "generator/gen_declares.go", "translator/translator.go"],
  mech=[("argument proxies", "generator/gen_bindings.go createProxies, proxyArgFromGo"), ("write back", "generator/gen_bindings.go proxyArgToGo"), ("result", "generator/gen_bindings.go proxyRetToGo")],
  observe=["values the C functions record, arguments and results after the call"],
  technique=RT, level="exploration",
  note="~85 000 calls of ~3 700 generated functions. C writes new values through every pointer it may write to; the driver compares arguments, results and what C saw with the values it made, byte for byte.")

P(id="C13", title="Memory handed to C lives through the call and is released after it",
  statement="While a generated function runs, everything its arguments point to stays valid and unchanged even if the caller drops every reference and the garbage collector and all finalizers run during the call. Afterwards, once the arguments are unreachable and finalized, all C memory made for the call has been freed, each block once; only what a struct passed by pointer keeps for its explicit release may remain.",
  over=["schedules", "inputs"],
  quant="for every parameter class and combination of C10 (4 configurations): the schedule in which collection and all finalizers run inside the C call, and again after it, with distinct values and inner nil pointers",
  why="needs the garbage collector to strike between preparing an argument and C's last use of it; tests never make it run there",
  files=["generator/gen_bindings.go", "generator/gen_struct_helpers.go", "generator/gen_files.go"],
  mech=[("keep alive", "generator/gen_bindings.go createProxies"), ("allocation map with finalizer", "generator/gen_bindings.go getUnpack*Source"), ("release", "generator/gen_files.go cgoAllocMap")],
  observe=["values the C function records before and after the collection; blocks that stay allocated; double frees"],
  technique=RT, level="exploration",
  note="malloc, calloc and free of the bindings are interposed: freed blocks are poisoned and quarantined, so any premature release changes what C reads; freed Go objects are clobbered (GODEBUG=clobberfree=1).")

P(id="C11", title="Structs keep their values between Go and C, both ways",
  statement="A Go struct handed to C, by reference or by value, gives a C struct with the same value in every member: numbers, enumerations, arrays, nested structs, strings, pointers to any depth, handles, and NULL for nil. What C holds or writes comes back the same on dereferencing, a wrapper of a C reference stays that reference and leaves it unchanged, and releasing a struct frees exactly the memory made for it.",
  over=["inputs", "configurations"],
  quant="~235 member classes between two other members and all pairs of 16 representatives (thorough: ordered pairs), 3 ways of declaring the struct, 8 configurations, all boundary, distinct and inner-nil value patterns x 2 patterns written by C",
  why="the repository's tests never compile a generated struct; every member type under every tip takes another conversion",
  files=["generator/gen_struct_helpers.go", "generator/gen_bindings.go", "translator/translator.go"],
  mech=[("Go to C", "generator/gen_struct_helpers.go getPassRefSource"), ("C to Go", "generator/gen_struct_helpers.go getDerefSource"), ("member conversions", "generator/gen_bindings.go proxyValueFromGo, proxyValueToGo")],
  observe=["C members as recorded by C code, Go members by reflection, live C blocks"],
  technique="exhaustive enumeration of structs and values on the real generated bindings, compiled with cgo against recording C code, under a controlled heap", level="exploration",
  note="~27 000 round trips over ~2 700 structs; C code written by the harness reads and writes every member.")

P(id="C12", title="A struct wrapper has a consistent life",
  statement="Whatever the order in which a struct is handed to C, dereferenced, changed on either side, released, wrapped again and collected, the wrapper keeps one C struct from the first hand-over until release, Go sees C's values exactly when it dereferences, C never sees freed or collected memory, and every block made for the wrapper is freed exactly once, on release and not before. Operations on nil or released wrappers are harmless.",
  over=["histories", "configurations"],
  quant="all sequences of up to 4 (thorough 5) of 10 operations (hand over by reference or value, reference, dereference, release, change in Go, change in C, collect, wrap C memory, wrap the same C memory again) on 9 struct shapes x 4 configurations",
  why="every operation alone works; use after free, leaks and stale references need particular sequences with a collection in between",
  files=["generator/gen_struct_helpers.go", "generator/gen_bindings.go", "generator/gen_files.go"],
  mech=[("life cycle", "generator/gen_struct_helpers.go getStructHelpers"), ("allocation map", "generator/gen_bindings.go cgoAllocMap")],
  state=[("wrapper", "reference, allocation map and Go values of the struct", "generated cgo_helpers.go: ref and allocs fields"), ("C memory", "blocks made for the wrapper and the values in them", "malloc, calloc and free of the generated package")],
  observe=["returned references, Go and C values, live C blocks after every step"],
  technique="explicit-state model of a wrapper's life; every operation sequence up to the depth is replayed on the real generated bindings under a controlled heap and garbage collector", level="model_checking",
  note="Every step of every sequence is executed on the real bindings and compared with the model, so each explored transition is validated against the implementation; freed blocks are poisoned and quarantined.")

P(id="C15", title="A Go callback receives what C passes and C gets what it returns",
  statement="When C calls a function pointer that stands for a Go function, the Go function runs once per call with every argument equal to the C value in its position, and C receives exactly what it returns; Go writes through pointers to plain values reach C's memory. A nil Go function is a NULL function pointer.",
  over=["inputs", "configurations"],
  quant="callback types of all parameter classes alone, pairs and triples of representatives and all results, under 5 configurations, with all combinations of boundary, distinct and nil values, two calls from C per run",
  why="the repository's tests never call back; every parameter takes its own conversion in the opposite direction of function calls",
  files=["generator/gen_callbacks.go", "generator/gen_bindings.go"],
  mech=[("Go side of the callback", "generator/gen_callbacks.go getCallbackHelpers, writeCallbackProxyFunc"), ("argument proxies", "generator/gen_bindings.go proxyCallbackArgs, proxyArgToGo")],
  observe=["arguments the Go function gets, results C records, memory C passed"],
  technique=RT, level="exploration",
  note="~16 000 runs of ~1 600 callback types. Slices of converted elements arrive nil and a second Go function of the same type is never called: both are recorded as known findings, per signature.")

SCH = "stateless model checking of the real tool: its sources are rewritten at build time (AST, type-aware) so that goroutines, channels, selects, locks, wait groups and map iteration run under a controlled scheduler, and executions are enumerated depth-first by the choices they offer"

P(id="C01", title="Generation depends on its inputs only",
  statement="For the same headers, configuration and flags, every run gives the same exit status and byte-identical output files: neither the iteration order of any map nor the order in which goroutines run can be seen in them, even when names collide, several rules or tips apply, or several packages are generated in one run.",
  over=["schedules", "inputs"],
  quant="21 inputs (each kind of declaration alone, all of them under every group of settings, colliding names, names that differ in case only, several headers and packages, failing runs) x every single change of a map order (all permutations of up to 4 keys; reverse, each key first, each last of more), every single change of a scheduling choice, and the reverse order at every one, two and all range statements; thorough: also pairs of choices",
  why="Go randomises map order and scheduling: a test that passes once says nothing about the next order",
  files=["translator/translator.go", "translator/type_mapping.go", "translator/helpers.go", "generator/generator.go", "process.go", "parser/parser.go"],
  mech=[("ordering of maps before emission", "generator/generator.go WriteConst, sortedTagDefs"), ("rule and tip compilation", "translator/translator.go"), ("output files", "process.go Flush")],
  state=[("choice history", "choices taken at scheduling points, selects and map ranges", "instrumented build of the tool")],
  observe=["exit status and all files of the output directory"],
  technique=SCH, level="model_checking",
  note="~6 700 executions of the instrumented tool, each compared byte by byte with the first one, which is itself compared with the tool as built. Map orders inside third-party modules and the Go standard library stay native.")

P(id="C02", title="Concurrent helper collection is complete, race-free and ends",
  statement="Under every interleaving of generation, helper collection and progress display, a run ends without deadlock, crash or data race, and the output holds every helper the package uses exactly once, whatever the number of packages on the command line.",
  over=["schedules"],
  quant="all schedules (choices of the next goroutine and of ready select cases) of 17 inputs; for two packages in one run, with and without progress display, the first 1 500 (thorough 12 000) by number of deviations; each input also under the Go race detector with every single deviation",
  why="tests see one schedule; lost helpers and deadlocks need the collector to run at particular points",
  files=["generator/generator.go", "process.go", "main.go", "generator/gen_bindings.go"],
  mech=[("helper channel and shutdown", "generator/generator.go MonitorAndWriteHelpers, Close"), ("submission", "generator/gen_bindings.go submitHelper"), ("wait for the collector", "process.go Flush"), ("progress display", "main.go main")],
  state=[("schedule", "which goroutine runs next at each synchronisation", "instrumented build of the tool")],
  observe=["termination, exit status, output files, race reports"],
  technique=SCH + "; the same schedules also run under the Go race detector, the scheduler's own synchronisation being hidden from it", level="model_checking",
  note="Complete schedule trees (144 executions each) for single packages. Between synchronisation operations code runs without preemption, which is sound for race-free code; the race detector covers the rest.")

P(id="C14", title="Tracking of C allocations is safe under concurrent use",
  statement="The record of C allocations that the bindings keep gives, under every interleaving of goroutines that add, move, query and free, the results of some order of these operations: every recorded block is freed exactly once, none is lost or freed twice, and there is no data race, crash or deadlock.",
  over=["schedules", "histories"],
  quant="all programs of 2 goroutines with 2 operations each and of 3 goroutines with 1-2 operations, out of 7 operations on two records, starting empty or filled, under all interleavings of their lock operations; the 2-goroutine programs also under the Go race detector (thorough: 3-2, 2-2-1 and 1-1-1-1)",
  why="finalizers free memory concurrently with calls; tests never run them against each other",
  files=["generator/gen_bindings.go"],
  mech=[("allocation record", "generator/gen_bindings.go cgoAllocMap")],
  state=[("records", "two records of pointers and the set of freed pointers", "generated cgo_helpers.go, extracted and run with C.free replaced by a stand-in")],
  observe=["results of the operations, which pointers are freed and how often"],
  technique="stateless model checking of the generated code itself: its locks run under a controlled scheduler, all interleavings are enumerated and compared with all sequential orders (linearisability); the same programs run under the race detector", level="model_checking",
  note="~6.4 million executions of 17 548 outcomes; the code is taken from the output of the tool built from the working tree. Two records that move blocks into each other at the same time are outside: the bindings never do that.")

P(id="C22", title="Configured length members give slices their exact length",
  statement="A slice member for which the configuration names a length member has, after reading the struct from C, exactly the length that member holds and lies over the C memory; all other slice members have length zero, whatever the order, types and names of the members, and a struct whose length changes has the new length when read again.",
  over=["inputs", "configurations", "histories"],
  quant="structs with one or two slices of every element type, every integer type as length in both orders, crossed, shared and missing lengths under 5 configurations; every pair of lengths out of 0, 1, 2, 7 and the largest; every history of 3 lengths",
  why="no test sets a length member, let alone checks the length in a running program",
  files=["generator/gen_bindings.go", "generator/gen_struct_helpers.go", "translator/translator.go"],
  mech=[("length of slices", "generator/gen_bindings.go proxyValueToGo"), ("lookup by type and member", "generator/gen_struct_helpers.go getLenField")],
  state=[("lengths", "the two length members of the C object", "generated package, run")],
  observe=["length, capacity, address and elements of the slices of wrapper structs"],
  technique=RT, level="model_checking",
  note="Slices whose elements need conversion (strings, wrapped structs, slices) are outside: the generator takes no length for them.")

P(id="C23", title="Raw structs are the C object itself",
  statement="A struct configured as raw memory is the C object: constructors, references, accessors and calls refer to the very same memory, reading and writing through an accessor affects exactly its member, and only objects made by the bindings are allocated, zeroed, once, and freed only on request.",
  over=["inputs", "configurations", "histories"],
  quant="359 structs (every member class between others, pairs of representatives, raw structs within raw structs), 5 patterns of values, through all accessors, returned, passed by value and as slices, inside wrapped structs; every sequence of up to 5 (thorough 6) of 6 operations on a handle",
  why="no test generates raw structs or accessors, and aliasing only shows in running programs",
  files=["generator/gen_struct_helpers.go", "generator/gen_bindings.go", "generator/generator.go"],
  mech=[("raw struct helpers and accessors", "generator/gen_struct_helpers.go getRawStructHelpers"), ("raw memory tips", "generator/generator.go MemTipOf"), ("values of accessors", "generator/gen_bindings.go proxyValueToGo")],
  state=[("handle", "nil, made by C, or owned, and the number of allocated blocks", "generated package, run with a recording allocator")],
  observe=["addresses, bytes and values on both sides, allocations"],
  technique=RT, level="model_checking",
  note="Array members are copies by design and compared as values. Accessors of callback members are not covered.")

P(id="C24", title="Strings cross the border as C strings",
  statement="A Go string given as a parameter, in a slice or array, or as a struct member reaches C as a NUL-terminated string with the bytes up to its first NUL, whether or not it is terminated already and with safe strings on or off, and the caller's string does not change. A C string arrives in Go with exactly its bytes, NULL as the empty string, and copies, of a string or of any part of it, stay intact when C changes its memory.",
  over=["inputs", "configurations"],
  quant="all strings up to length 3 over NUL, a letter, 0x80 and 0xff, every byte after a letter, and lengths around powers of two up to 1 024 with and without terminators, each with 6 others, along 13 ways between Go and C under 7 configurations, signed and unsigned characters",
  why="no test passes a string to C; termination, embedded NULs and emptiness each take another branch",
  files=["generator/gen_bindings.go", "translator/type_mapping.go"],
  mech=[("string helpers", "generator/gen_bindings.go getUnpackStringHelper, getPackStringHelper, safeString, rawStringCopy"), ("safe strings in calls", "generator/gen_bindings.go createProxies")],
  observe=["the bytes C records and the strings Go has"],
  technique=RT, level="exploration",
  note="Members and results are declared const char *const, which the generator takes for strings; with const char * the parser loses the const and they are bytes (known limit of the C parser).")

P(id="C25", title="Unions keep their bytes",
  statement="A union of the C header is a Go array of exactly its size, and its bytes are the same on both sides however it travels: by value, as a result, behind one or two pointers, in arrays, in structs read from or passed to C, and in callbacks.",
  over=["inputs", "configurations"],
  quant="20 unions (sizes 1 to 300, alignments 1 to 8, integer and floating point classes, pointers, nested structs and unions, bit-fields; with typedef, tag or both) as every parameter, result, member and callback class and in combinations, under 10 configurations, with all combinations of boundary, distinct and nil values, calls also with the garbage collector run during them",
  why="no test generates a union; a wrong size or offset only shows when the bytes behind it are compared",
  files=["generator/gen_typedef.go", "generator/gen_bindings.go", "translator/translator.go", "translator/ast_walker.go"],
  mech=[("union types", "generator/gen_typedef.go writeUnionTypedef"), ("plain kinds", "generator/gen_bindings.go proxyArgFromGo, proxyValueToGo")],
  observe=["bytes of the union on both sides of calls, structs and callbacks"],
  technique=RT, level="exploration",
  note="Padding inside a union has no defined value in C; the shapes have none.")

P(id="C31", title="Declarations are bound independently of each other",
  statement="What the tool generates for a declaration does not depend on unrelated declarations before or after it: the package of a header with several declarations consists exactly of the declarations, helpers and C lines of the packages for each of them alone. Only line numbers and the numbers in names of local variables may differ.",
  over=["inputs", "configurations"],
  quant="all ordered pairs of 102 (thorough: about 720) declarations over positions, base types, pointers and arrays, and kinds of macros, enumerations, handles, lists and callbacks, under the default configuration; neighbouring pairs under arr tips and safe strings (thorough: all pairs under eight configurations); all of them in one header in order, reversed and rotated; pairs of types whose names are made of one another by 12 (thorough 27) prefixes and suffixes of helper names, over 5 (9) kinds and 11 uses",
  why="caches, collected helpers and per-package state make declarations influence each other only in particular combinations and orders; tests bind single headers",
  files=["translator/translator.go", "generator/gen_bindings.go", "generator/gen_struct_helpers.go", "generator/generator.go", "generator/gen_callbacks.go"],
  mech=[("caches of tips and names", "translator/translator.go TransformName, TipRxsForSpec"), ("helpers collected once", "generator/generator.go submitHelper, MonitorAndWriteHelpers"), ("sorted declarations", "translator/translator.go Learn")],
  observe=["the declarations of the generated Go files and the lines of the C files"],
  technique=EX, level="exploration",
  note="Differential: the package of a declaration alone is the oracle, which other checks judge.")
