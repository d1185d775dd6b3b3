"""The properties: what is claimed, and what this family cannot decide."""

CP = "pyclibrary/c_parser.py"
CL = "pyclibrary/c_library.py"
BE = "pyclibrary/backends/ctypes.py"
UT = "pyclibrary/utils.py"
FL = "pyclibrary/thirdparty/find_library.py"
IN = "pyclibrary/init.py"

PROPS = [
    dict(
        id="C01", title="Binding a library never changes the parsed definitions",
        statement="Whatever is looked up, instantiated, called or printed through a "
        "library proxy, the definitions held by the parser it was built from stay "
        "exactly as parsed: resolving types, building structure classes, wrapping or "
        "calling functions and querying the parser only read them. The same definitions "
        "can therefore be used again, shared between libraries and written to a cache.",
        over=["inputs", "histories"],
        for_all="all headers, all sequences of lookups and calls made through any proxy",
        tests="tests resolve a few types once and compare the result, never the "
        "definitions afterwards; aliasing depends on the shape of the type and on the history",
        files=[CL, BE, CP],
        where=[("copies made before modification", BE + " _get_type, _get_struct, _get_pointer"),
               ("signature copied by the function wrapper", CL + " CFunction.__init__")],
        technique="alias / ownership dataflow (mutation of foreign objects)",
        note="Sound for the builtin container operations over every path of the binding "
        "layer; trusts that ctypes does not mutate its arguments.",
    ),
    dict(
        id="C02", title="Objects given by the caller are never modified",
        statement="No public function or constructor modifies the lists, dicts or other "
        "containers it is given, at any depth (header lists, option dictionaries, "
        "replacement tables, prefixes, directories to search, call arguments, extra "
        "types and modifiers). The configured search paths change only through the "
        "functions meant to add locations.",
        over=["inputs", "histories"],
        for_all="all arguments of all public entry points, all sequences of calls",
        tests="tests pass literals and never look at them again",
        files=[CL, BE, CP, UT, IN],
        where=[("copies of the arguments", IN + " auto_init, " + UT + " find_header, find_library"),
               ("own copies of options", CP + " CParser.__init__")],
        technique="alias / ownership dataflow (mutation of caller owned objects)",
        note="Sound for the builtin container operations over every path of the package.",
    ),
    dict(
        id="C03", title="With call locking, native calls are serialised",
        statement="When a library is opened with call locking, every call of one of its "
        "native functions through the proxy is made while holding one re-entrant lock "
        "shared by all the functions of that library, whatever the arguments, and the "
        "lock is free again once the call ended, normally or not.",
        over=["schedules", "inputs", "fault_sequences"],
        for_all="all interleavings of threads calling any functions of the library, all arguments, failures of the call",
        tests="no test uses two threads; a missing or misplaced lock is invisible sequentially",
        files=[CL],
        where=[("lock creation", CL + " CLibrary.__init__"),
               ("locked call", CL + " CFunction.__call__")],
        technique="lock-set analysis over the construction of the call objects",
        note="All paths of construction and call are covered; trusts threading.RLock.",
    ),
    dict(
        id="C04", title="Text found in headers cannot reach Python objects",
        statement="Expressions found in headers (macro values, enumerators, array sizes, "
        "initialisers, conditions) are evaluated in a closed namespace: a name occurring "
        "there denotes a value defined by the headers or nothing at all, never a Python "
        "builtin, module, or an object of the parser.",
        over=["inputs"],
        for_all="all header texts",
        tests="tests evaluate well behaved expressions only",
        files=[CP],
        where=[("evaluation of expressions", CP + " CParser.eval, eval_preprocessor_expr")],
        technique="dataflow from every evaluation site to its namespaces",
        note="Every eval/exec/import site is enumerated and its namespace arguments are "
        "followed through the callers; attributes of constants stay reachable from an "
        "expression, that is a documented limit.",
    ),
    dict(
        id="C05", title="Library names are data for the shell and patterns used",
        statement="When a library is looked up or its architecture read, the names and "
        "paths given by the user reach external programs as single arguments and regular "
        "expressions as literal text, whatever characters they contain. The program "
        "which is run never depends on them.",
        over=["inputs"],
        for_all="all library names and paths, including shell and regular expression metacharacters",
        tests="tests look for two ordinary names",
        files=[FL, UT],
        where=[("quoting", FL + " _findlib_gcc, _findlib_ldconfig"),
               ("argument vector", UT + " get_arch, check_output")],
        technique="taint analysis of commands and patterns",
        note="Every call starting a program is enumerated, its command is followed back "
        "through helpers to constants, quoted values or entry points; trusts shlex.quote/re.escape.",
    ),
    dict(
        id="C06", title="Only the requested cache file is ever written",
        statement="Parsing headers, finding libraries and binding them never creates, "
        "changes or removes a file, except the cache file the user asked for and the "
        "temporary files created, and removed, by the operation itself. The headers and "
        "libraries given are only read.",
        over=["inputs", "histories"],
        for_all="all headers, options, names of libraries and cache paths",
        tests="tests do not look at the file system around the files they create",
        files=[CP, CL, UT, FL, BE, IN],
        where=[("cache writing", CP + " CParser.write_cache"),
               ("temporary output of the compiler", FL + " _findlib_gcc")],
        technique="effect analysis of every file operation with path provenance",
        note="Every operation of the standard library able to change a file is enumerated "
        "and its path followed to its origin; external programs are trusted to write only "
        "where told.",
    ),
    dict(
        id="C07", title="Files, pipes and processes are released however it ends",
        statement="Every file, pipe, process or temporary file opened while parsing, "
        "caching or looking for a library is closed, waited for or deleted when the "
        "operation ends, be it normally or by an error at any point.",
        over=["inputs", "fault_sequences"],
        for_all="all inputs and all points where an operation can fail",
        tests="tests do not make intermediate calls fail nor count descriptors",
        files=[CP, UT, FL],
        where=[("with statements", CP + " load_file, load_cache, write_cache"),
               ("try/finally unlink", FL + " _findlib_gcc"), ("communicate", UT + " check_output")],
        technique="typestate analysis with exceptional paths",
        note="All paths including the failure of any call; trusts that close and "
        "communicate do not fail.",
    ),
    dict(
        id="C08", title="Text in inactive conditional branches has no effect",
        statement="What lies in a branch of #if/#ifdef/#ifndef/#elif/#else which C would "
        "not select has no effect: its text is dropped, its macros are neither defined nor "
        "removed, its pragmas are ignored, its nested conditionals select nothing. Exactly "
        "one branch of a group is selected, the first whose condition holds.",
        over=["inputs"],
        for_all="all sequences and nestings of conditional directives, all outcomes of their conditions",
        tests="tests contain a few nestings; the selection depends on the whole stack of enclosing branches",
        files=[CP],
        where=[("loop over the lines with the stacks if_true and if_hit", CP + " CParser.preprocess"),
               ("conditions", CP + " CParser.eval_preprocessor_expr")],
        technique="transition relation extracted from the source compared to a reference automaton",
        note="The relation is extracted over all paths of the loop body; the comparison "
        "covers every directive sequence up to nesting depth 3, with unknown conditions.",
    ),
    dict(
        id="C09", title="A structure is packed by the pragma preceding it",
        statement="The packing of a structure is the one set by the last packing directive "
        "before the line of the structure in its own file. Preprocessing keeps one line "
        "per line of input, so that positions before and after agree, and directives of "
        "one file do not apply to another.",
        over=["inputs", "histories"],
        for_all="all positions of directives and structures, all mixes of other directives, all orders of files",
        tests="tests place the directives in a single file, a line away from the structures",
        files=[CP],
        where=[("recorded lines", CP + " CParser.preprocess"),
               ("lookup", CP + " CParser.packing_at, process_struct")],
        technique="path-sensitive dataflow with offset arithmetic on line indices",
        note="Every path through the line loop; the values pushed and popped are not decided.",
    ),
    dict(
        id="C10", title="A cache is used only when it matches options and headers",
        statement="With validity checking, definitions are taken from a cache only if it "
        "was written by the same version for the same options (files, replacements, extra "
        "definitions, copied parsers, encoding) and no header changed since. An unreadable "
        "cache leads to a normal parse, and a cache is written only with complete results.",
        over=["inputs", "histories", "fault_sequences"],
        for_all="all options, all histories of writing caches and changing headers, all corrupt cache contents",
        tests="tests change one option at a time",
        files=[CP],
        where=[("validity conditions", CP + " CParser.load_cache"),
               ("recorded options", CP + " CParser.__init__, load_file"),
               ("writing", CP + " CParser.process_all, write_cache")],
        technique="path-condition (guard dominance) analysis and dependence of options",
        note="All paths to every use of the unpickled data; trusts modification times.",
    ),
    dict(
        id="C11", title="Per-file and global definitions always agree",
        statement="A definition present in the global tables is present, with the same "
        "value, in the tables of the file it came from, and a removed definition "
        "disappears from both. The definitions found in a file are attributed to that "
        "file, whether parsed, imported from a parser or from a cache.",
        over=["inputs", "histories"],
        for_all="all headers and all sequences of additions, removals and imports",
        tests="tests look at one view at a time; caches and copies are made from the other",
        files=[CP],
        where=[("single write", CP + " CParser.add_def, rem_def"),
               ("current file", CP + " preprocess, parse_defs, import_dict")],
        technique="paired-effect analysis over all write sites",
        note="Every write to the tables on every path, helpers inlined.",
    ),
    dict(
        id="C12", title="Each arithmetic C type is bound to the ctypes type of that C type",
        statement="Every valid spelling of an arithmetic C type (specifiers in any order, "
        "signed omitted or not) and every type keyword the parser accepts on the platform "
        "is bound to the ctypes type of that same C type. Types given by the user are "
        "bound as given; pointers to characters and void use the dedicated pointer types, "
        "enumerations are int.",
        over=["inputs"],
        for_all="all arithmetic type spellings in any declaration, all platforms and sets of user types",
        tests="tests use a handful of spellings on the platform they run on",
        files=[BE, CP],
        where=[("table of types", BE + " init_clibrary"), ("base types", BE + " CTypesCLibrary._get_type"),
               ("signed", CP + " Type.eval")],
        technique="constant propagation over the construction of the type table",
        note="Exhaustive over the spellings of the C arithmetic types; trusts ctypes.c_X to be the C type X.",
    ),
    dict(
        id="C13", title="A structure class mirrors its definition and is kept only when complete",
        statement="The class made for a structure or union has one field per member of the "
        "definition, in order, with its name, the type resolved from that member and its "
        "bit width, and the packing and anonymous members of the definition. It can be "
        "referred to by its own members, and when it cannot be completed no unfinished "
        "class is left in the library.",
        over=["inputs", "histories", "fault_sequences"],
        for_all="all structure and union definitions, nested or self-referential, all failures while building them",
        tests="tests build a few complete structures; the failure paths are not executed",
        files=[BE],
        where=[("construction", BE + " CTypesCLibrary._get_struct")],
        technique="path-sensitive value-flow analysis with failures",
        note="All paths including failures of member resolution and of the layout; trusts ctypes.",
    ),
    dict(
        id="C14", title="A structure or union has a single class, whatever name is used",
        statement="Reaching a structure or union through its tag, any typedef of it, a "
        "member, an argument or a return type gives the same class in a given library, so "
        "instances are interchangeable. The class is built from the definition of that very tag.",
        over=["inputs", "histories"],
        for_all="all names denoting a structure, all orders in which they are used",
        tests="tests compare one alias with one tag in one order",
        files=[BE, CL],
        where=[("resolution of names", BE + " CTypesCLibrary._resolve_struct_alias"),
               ("registry", BE + " CTypesCLibrary._get_struct")],
        technique="path-sensitive value-flow analysis (registry typestate)",
        note="All paths creating or returning structure classes.",
    ),
    dict(
        id="C15", title="A library file has one live proxy however it is designated",
        statement="Opening a library already open, by name, relative or absolute path, "
        "symbolic link or native library object, gives the same proxy as long as it is "
        "alive; distinct files never share a proxy. An opening which fails leaves "
        "nothing behind, and the registry does not keep proxies alive.",
        over=["inputs", "histories"],
        for_all="all sequences of openings and collections, all designations of a library",
        tests="tests open one library twice by the same name",
        files=[CL, BE, UT],
        where=[("registry", CL + " CLibraryMeta.__call__"),
               ("path of an opened library", BE + " CTypesCLibrary._get_library_path")],
        technique="path-sensitive value-flow analysis of the construction entry point",
        note="All paths of the construction; trusts os.path.realpath and WeakValueDictionary; "
        "two threads opening at the same time are not considered.",
    ),
    dict(
        id="C16", title="Libraries of another word size are refused before loading",
        statement="A library file whose architecture is known not to match the word size "
        "of the interpreter is refused with an error before it is loaded. A library whose "
        "architecture cannot be determined is let through.",
        over=["inputs", "fault_sequences"],
        for_all="all library files, all outputs and failures of the architecture lookup",
        tests="tests open only libraries of the right architecture",
        files=[CL, UT],
        where=[("refusal", CL + " CLibraryMeta.__call__"),
               ("word sizes", UT + " LibraryPath.arch, get_arch")],
        technique="guard dominance over path conditions",
        note="Every path constructing a proxy from a file name; trusts the names of "
        "machines printed by the file command.",
    ),
    dict(
        id="C17", title="The package is initialised once, completely, before any parser works",
        statement="Initialisation installs the keywords and types it is given, on parser and "
        "libraries alike, at most once: a second one raises and changes nothing. "
        "A failed initialisation does not count as done, and creating a parser initialises "
        "automatically when, and only when, nothing did before.",
        over=["histories", "fault_sequences"],
        for_all="all sequences of initialisations and parser creations, all failures inside of them",
        tests="tests initialise once at import and call it a second time once",
        files=[IN, CP, CL],
        where=[("initialisation", IN + " init, auto_init"), ("on demand", CP + " CParser.__init__")],
        technique="path-sensitive typestate analysis with failures",
        note="All paths of init, auto_init and CParser.__init__; threads initialising at once are not considered.",
    ),
    dict(
        id="C18", title="An error in one declaration or macro never stops the processing",
        statement="Whatever a header contains, a typedef, structure, union, enumeration, variable or function "
        "declaration which cannot be processed, a macro which cannot be defined, removed or expanded and a condition "
        "which cannot be evaluated are skipped, and what follows is processed. Text which is not understood is "
        "skipped as well. An expression which cannot be evaluated only leaves its value unknown (None).",
        over=["inputs", "fault_sequences"],
        for_all="all headers and all errors met while processing a declaration or a macro",
        tests="tests process well-formed headers",
        files=[CP],
        where=[("declarations", CP + " CParser.process_typedef, process_struct, process_enum, process_variable, process_function"),
               ("macros", CP + " CParser.preprocess, expand_macros, eval_preprocessor_expr"),
               ("expressions", CP + " CParser.eval_expr"), ("scan", CP + " CParser.parse_defs")],
        technique="exception escape analysis over all paths with the failure of every call",
        note="Every call may fail; operations other than calls are looked at outside of the handlers of the actions only. Malformed "
        "directives (an #endif without #if, a #define without name) are not covered.",
    ),
    dict(
        id="C19", title="Processing headers always ends",
        statement="Whatever the headers hold, processing them and building the types of a library ends: macros, including those which "
        "refer to themselves or to one another, are expanded once in what they are given and what they are replaced by is not expanded "
        "again; circular typedefs are told; naming anonymous structures, unions, enumerations and members finds a free "
        "name whatever names are taken; the classes of structures which point to themselves or to one another are built once.",
        over=["inputs", "histories"],
        for_all="all headers and all tables of definitions",
        tests="tests parse a few headers, none of which holds a macro or typedef referring to itself",
        files=[CP, BE],
        where=[("macros", CP + " CParser.expand_macros, expand_fn_macro"), ("anonymous names", CP + " CParser.process_enum, process_struct"),
               ("typedefs", CP + " Type.eval"), ("declarators", CP + " CParser.process_declarator"),
               ("classes", BE + " CTypesCLibrary._get_struct, _get_type")],
        technique="termination analysis (loop variants and well-founded recursion) over the terms of a path-sensitive value-flow analysis",
        note="That pyparsing and re end on any text is assumed; how long they take is not decided.",
    ),
    dict(
        id="C20", title="Definitions are compared, shown, copied and saved whole",
        statement="The types, structures, unions and enumerations of the definitions keep all they hold: two types are equal only if their "
        "base types, declarators and qualifiers are (a type equals the tuple of its parts), and != is always the opposite of ==, whatever object they "
        "are compared with; a type refuses qualifiers which are not as many as its parts; copying or pickling one gives an equal one of the same class; "
        "its text holds all its items, and its qualifiers or its packing if there are any; printing shows every table of definitions, "
        "of the file if one is given; looking for a name or a text gives every match in every file and table.",
        over=["inputs"],
        for_all="all definitions and all objects they are compared with",
        tests="tests compare a few types with types, and never with something else",
        files=[CP],
        where=[("types", CP + " Type"), ("structures, unions, enumerations", CP + " Compound, Enum"),
               ("tables", CP + " CParser.print_all, __str__, find, find_text")],
        technique="exhaustive case analysis of boolean terms, sequence algebra and provenance over a path-sensitive value-flow analysis",
        note="That pickle and copy rebuild an object from __getnewargs__ and its attributes is assumed.",
    ),
    dict(
        id="C21", title="A call passes what was given, in place, fresh objects for the rest",
        statement="Calling a wrapped function hands the native function each argument given, at "
        "its position or at the place of the parameter it names, None as a null pointer, and "
        "for every parameter omitted a new object of its type made by that very call. Only the "
        "places of those generated objects are recorded, and unknown names or None for what is no "
        "pointer are refused with TypeError before anything is called.",
        over=["inputs", "histories"],
        for_all="all signatures, all mixes of positional, keyword, omitted and None arguments, all earlier calls",
        tests="tests call a few functions of a test library with a few shapes of arguments",
        files=[CL, BE],
        where=[("building of the arguments", CL + " CFunction.__call__"),
               ("objects generated", BE + " CTypesCLibrary._get_pointer")],
        technique="path-sensitive value-flow analysis of the argument list",
        note="All paths of a call; sound for the list and dict operations modelled; trusts ctypes.",
    ),
    dict(
        id="C22", title="The result of a call gives back the arguments and the returned value",
        statement="Indexing a call result by position or parameter name gives the value of that "
        "argument, following the pointer exactly when the call generated it; calling it gives the "
        "returned value; iterating, auto() and assignment use the same places. "
        "Unknown names raise, and a structure or union is returned as itself.",
        over=["inputs"],
        for_all="all signatures, all subsets of generated arguments, all kinds of objects, by position or name",
        tests="tests read a handful of results",
        files=[CL, BE],
        where=[("accessors", CL + " CallResult"),
               ("extraction of values", BE + " CTypesCLibrary._extract_val_")],
        technique="path-sensitive value-flow analysis of the result accessors",
        note="All paths of every accessor; a negative position is passed on to the list of arguments as is.",
    ),
    dict(
        id="C23", title="Macros are expanded as defined, everything else is kept",
        statement="In the text which is preprocessed each whole name of a macro outside of a string literal is replaced by "
        "the text it was defined with (each call of a function-like macro by its text with the arguments in the places of the "
        "parameters, whatever characters it holds), the replacement is not scanned again, and all the rest of the "
        "line is kept as it is, in order; a call which cannot be expanded is kept too. #define registers the text under the "
        "name given and #undef forgets both kinds of macros.",
        over=["inputs"],
        for_all="all lines, macros, parameters, arguments and texts",
        tests="tests expand a few macros in a few lines",
        files=[CP],
        where=[("expansion", CP + " CParser.expand_macros, expand_fn_macro"),
               ("definition", CP + " CParser.process_macro_defn, compile_fn_macro"),
               ("directives", CP + " CParser.preprocess")],
        technique="path-sensitive value-flow analysis over intervals of the text",
        note="Arguments holding parentheses or commas are outside of what is claimed, as are the stringification "
        "and pasting operators. Patterns are constants of the source matched against fixed texts.",
    ),
    dict(
        id="C24", title="A name stands for the first matching definition, prefixes included",
        statement="lib.name gives the object of the first definition found looking through values, "
        "functions, types, structs, unions and enums, in each the bare name first and then the name "
        "completed with each prefix in order; lib(kind, name) does the same in one kind. The outcome does not "
        "depend on earlier lookups, both ways give the same object, built from the definition (and symbol) of that very name, "
        "and a name defined nowhere is refused.",
        over=["inputs", "histories"],
        for_all="all definitions, names and prefixes, all sequences of lookups",
        tests="tests look up names defined in one kind, with one prefix, in one order",
        files=[CL],
        where=[("lookup by name", CL + " CLibrary.__getattr__, _all_names_"),
               ("lookup by kind", CL + " CLibrary.__call__, _make_obj_, _get_function")],
        technique="path-sensitive value-flow analysis of the lookup order",
        note="Exact for any name and up to two unspecified prefixes, the literal lists of kinds being unrolled; "
        "a definition whose object is None is skipped.",
    ),
    dict(
        id="C25", title="Headers and libraries are found in the documented places, in order",
        statement="find_header and find_library give the file of that name in the first directory having one: "
        "those given, in order, then those added (existing directories only), the latest first, then those of the "
        "system; when no directory has one an OSError is raised. "
        "A header which exists as it is given to the parser is taken as such, the others are searched.",
        over=["inputs", "histories"],
        for_all="all names, lists of directories and contents of the file system",
        tests="tests look up a few names which exist in one directory",
        files=["pyclibrary/utils.py"],
        where=[("search", "pyclibrary/utils.py find_header, find_library, Path"),
               ("added directories", "pyclibrary/utils.py add_header_locations, add_library_locations"),
               ("search used", CP + " CParser.find_headers")],
        technique="path-sensitive value-flow analysis of the search order",
        note="Exact for two unspecified directories in each group (all are handled by the same loop); what the "
        "file system and the platform answer is free.",
    ),
    dict(
        id="C26", title="Nothing the platform or the version of Python lacks is ever needed",
        statement="On Linux, macOS and Windows and for every supported version of Python the package can be imported "
        "and used: parts of ctypes and of the standard library found on one platform only or from one version "
        "on are imported and used there only, and every name used in code running on a platform is bound on that "
        "platform. A __stdcall function pointer or a windows calling convention met elsewhere never ends in NameError.",
        over=["inputs"],
        for_all="all supported platforms and versions of Python, all headers and all conventions",
        tests="tests run on one platform and one version of Python",
        files=[BE, CP, UT, FL],
        where=[("optional parts", BE + " CTypesCLibrary._get_type, _link_library, init_clibrary"),
               ("types", CP + " num_types"), ("search", FL)],
        technique="name-binding analysis of the code left by each platform and version",
        note="The lists of platform dependent names of the standard library are part of the checker.",
    ),
    dict(
        id="C27", title="Every header is read as asked and goes through all the stages in order",
        statement="Each header given is read in order with the encoding asked for, all the replacements being made "
        "in its text, then has its comments removed, is preprocessed and parsed before the next one; a failing stage "
        "stops the processing. Nothing is processed once a valid cache was loaded, and the cache is written after the "
        "last stage of the last header, only if asked for and never after a failure.",
        over=["inputs", "histories", "fault_sequences"],
        for_all="all lists of headers, encodings, tables of replacements, caches and failing stages",
        tests="tests parse one or two well-formed headers without failures",
        files=[CP],
        where=[("processing", CP + " CParser.process_all, __init__"), ("reading", CP + " CParser.load_file"),
               ("stages", CP + " CParser.remove_comments, preprocess, parse_defs")],
        technique="path-sensitive ordering and provenance analysis",
        note="Two headers are distinguished; the content of the stages is not decided here.",
    ),
    dict(
        id="C28", title="Native functions are declared with the prototype of the headers",
        statement="Before a function of a library can be called its native object is given the result type of the "
        "prototype and the types of all the parameters, in the order of the prototype (none for a parameter list made "
        "of a lone void, be it through a typedef), and nothing changes them afterwards. The type reported for an "
        "argument is that of the parameter of that name or index.",
        over=["inputs", "histories"],
        for_all="all prototypes, all uses of the functions",
        tests="tests call a few functions whose prototypes are simple",
        files=[CL, BE],
        where=[("declaration", CL + " CFunction.__init__"), ("native side", BE + " CTypesCLibrary._get_function"),
               ("reported types", CL + " CFunction.arg_c_type")],
        technique="path-sensitive value-flow analysis of what is stored on native functions",
        note="How a type of the headers becomes a ctypes type is the object of C12 and C32.",
    ),
    dict(
        id="C31", title="Types keep all their parts, in the order of C",
        statement="The type recorded for a declarator is made of the base type and of all the parts of the declarator: its calling "
        "convention, its pointers, its arrays in order, its parameters, then those of the declarator in parentheses, each with its own qualifiers. "
        "Resolving a type replaces typedefs one by one by their definitions until the base type is a fundamental one, "
        "keeping all the declarators (those of the typedef first, but for the sizes of arrays of arrays, which stay in the order "
        "of C) and all the qualifiers at their places; unknown and circular typedefs raise DefinitionError. The two forms of the types of functions hold the same parts.",
        over=["inputs"],
        for_all="all declarators and all tables of typedefs",
        tests="tests resolve a few types, with one typedef of each kind",
        files=[CP],
        where=[("declarators", CP + " CParser.process_declarator, process_type"), ("typedefs", CP + " Type.eval"),
               ("forms of functions", CP + " Type.add_compatibility_hack, remove_compatibility_hack")],
        technique="sequence algebra (tilings with symbolic offsets) over the terms of a path-sensitive value-flow analysis",
        note="Which text the grammar, built at run time, takes for which part of a declarator is not decided.",
    ),
    dict(
        id="C32", title="Derived types are built from all the declarators, in order",
        statement="The ctypes type of a declaration is obtained by applying to its base type all its declarators, from the "
        "first to the last: a pointer for each * and each reference, an array for each size, the last size first, "
        "a pointer instead if the size is unknown, a function pointer for each parameter list with its following pointer, having "
        "the types of the parameters in order, the result type built so far and the calling convention declared. "
        "Calling conventions have no other effect. The dedicated types of pointers to characters and to void replace the base "
        "and its first pointer only, and nothing is applied when the pointers are not asked for.",
        over=["inputs"],
        for_all="all base types and sequences of declarators",
        tests="tests convert about a dozen types, with at most three declarators",
        files=[BE],
        where=[("resolution", BE + " CTypesCLibrary._get_type")],
        technique="path-sensitive value-flow analysis, one obligation for each step of the resolution",
        note="Each step is decided for any previous result. Which declarators the parser extracts is not decided here.",
    ),
    dict(
        id="C29", title="Enumerators are numbered as in C and all recorded",
        statement="Every enumerator of an enumeration is recorded, in order, under its name and no other, among the values of "
        "its enumeration and among the values of the header, with the same value at both places: the value of its "
        "initialiser if it has one, else one more than the previous enumerator, 0 for the first, None when the previous one is not known.",
        over=["inputs"],
        for_all="all enumerations with any number of enumerators, initialised or not",
        tests="tests parse a handful of enumerations",
        files=[CP],
        where=[("numbering", CP + " CParser.process_enum")],
        technique="path-sensitive value-flow analysis, with an induction over the enumerators",
        note="The value of an initialiser is the one eval_expr gives, which is not decided here.",
    ),
    dict(
        id="C30", title="Every declaration is recorded in full under its own name",
        statement="Every declarator of a declaration of a header is recorded, in order, under its own name with the type made of the type of "
        "the declaration and of its declarators: typedefs as types, declarators ending with a parameter list as functions, the "
        "other ones as variables with their value, an initialiser being the value of the last declarator only. "
        "Structures and unions have all their members, one for each declarator, in order, with their bit width, including the members "
        "without declarator. A tag is recorded with its type under the name by which it is referred to, anonymous ones under an "
        "unused name, and a mere reference to a tag never replaces its definition.",
        over=["inputs"],
        for_all="all declarations accepted by the grammar",
        tests="tests parse some headers of examples",
        files=[CP],
        where=[("typedefs", CP + " CParser.process_typedef"), ("variables and functions", CP + " CParser.process_variable"),
               ("members", CP + " CParser.process_struct"), ("enumerations", CP + " CParser.process_enum")],
        technique="path-sensitive value-flow analysis of what the parse actions record",
        note="Which declarations the grammar, built at run time, accepts is not decided.",
    ),
    dict(
        id="C33", title="Arrays, casts and generated pointers have the type and shape asked for",
        statement="build_array gives a ctypes array of the elements and the dimensions asked for, the first dimension being the outermost as in C, "
        "made of all the values given, or of zeros when none is; cast_to casts the object itself to the very type asked for; in both a type given by "
        "name is the one the headers resolve, pointers included, and a class is used as it is. The object a call makes for an omitted pointer is a "
        "pointer of as many levels as the parameter has, to new storage of the type the parameter points to, never a null pointer.",
        over=["inputs"],
        for_all="all element types, by name or class, all sizes, all values, all types of omitted parameters",
        tests="tests build one array of one dimension, cast once and omit pointers to a few types",
        files=[CL, BE],
        where=[("arrays and casts", CL + " build_array, cast_to; " + BE + " CTypesCLibrary._get_array, _cast_to"),
               ("storage of omitted pointers", BE + " CTypesCLibrary._get_pointer")],
        technique="symbolic value-flow analysis, the loops over dimensions and levels unrolled",
        note="Arrays up to four dimensions, one or two levels of pointers (all the code accepts). The single level of a pointer to characters or "
        "to nothing is only required to be a pointer: no size of storage is known.",
    ),
    dict(
        id="C34", title="Every form of C declaration is recognised with all its parts",
        statement="Every typedef, variable, prototype, function definition, structure, union and enumeration made of the supported forms is "
        "recognised as a whole, up to its end, and handed to the processing of its kind with each part taken for what it is: base type (several "
        "words, typedef names, qualified, struct/union/enum by name or defined in place, extra types and modifiers given at initialisation), "
        "declarators (qualified pointers, references, arrays with or without size, parentheses, functions, calling conventions, nested at will, "
        "unnamed in arguments), storage class, initial value or list after the last declarator, default values of arguments, widths of bit fields, bodies of "
        "functions, members, enumerators with or without a trailing comma. A declaration with no semicolon, an unbalanced one or one missing a "
        "part is refused. In expressions, casts and the operand of defined are recognised up to their closing parenthesis.",
        over=["inputs"],
        for_all="all declarations made of the supported forms, combined and nested, with and without extra types and modifiers",
        tests="tests read a few header files; the forms combine without limit, and what the grammar loses disappears silently",
        files=[CP],
        where=[("declarations", CP + " CParser.build_parser"),
               ("elements of the language", CP + " _init_cparser and module-level elements"),
               ("casts and defined", CP + " CParser.eval, CParser.preprocess")],
        technique="extraction of the grammar from the syntax tree, language inclusion against a reference grammar",
        note="The grammar is folded from the source (never run) into a graph of combinators; inclusion is decided for the sentences of a reference "
        "grammar with declarators nested to depth two, about 3400. Variable argument lists, initialisers before the last declarator and nested "
        "initialiser lists are not supported by the library and are not demanded.",
    ),
]

NOT_APPLICABLE = []
