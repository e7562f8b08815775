import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
MAP="pandalone/mappings.py"; PD="pandalone/pandata.py"; CAP="pandalone/xleash/_capture.py"; PAR="pandalone/xleash/_parse.py"; LAS="pandalone/xleash/_lasso.py"; FIL="pandalone/xleash/_filter.py"; BE="pandalone/xleash/io/backend.py"; XLRD="pandalone/xleash/io/_xlrd.py"; UT="pandalone/utils.py"; CO="pandalone/components.py"; XI="pandalone/xleash/__init__.py"

p("M01","Joining path steps normalises dots and roots, and is stable",
  "Joining any sequence of already-split path steps yields the path obtained by resolving them left to right: an empty step restarts at the root, '.' changes nothing, '..' removes the previous named step but never climbs above the root and piles up on relative paths. Only a path with no steps left prints as '.'; the result is absolute exactly when a root step was given, and splitting and re-joining the result gives it back.",
  ["inputs"],"every sequence of steps over '', '.', '..' and several names up to a depth bound",
  "Tests join a few dozen hand-picked step lists; interactions of roots, leading dot-dots and names appear only in specific longer sequences.",
  [MAP],[("step reduction table","pandalone/mappings.py:_append_step"),("join","pandalone/mappings.py:_join_paths")],["pandalone.mappings._join_paths","Pstep._paths"])
p("M02","Path mapping follows the declared rename/relocate rules",
  "For any ordered list of (from, to) mappings and any path, the mapped path is the one the rules prescribe: each step is replaced by its exact mapping, else by the latest-declared full-matching regex (with its groups expanded), descending through the merged children of everything that matched. A to-path starting with '.' is resolved against the original step, one starting with '/' re-roots the path, and steps no rule matches stay as they are.",
  ["inputs","configurations"],"every ordered list of up to 3 mappings from an alphabet of exact and regex from-paths and of renaming, relative, dotted, rooted and group to-paths, against every path of up to 3 (quick) or 4 (thorough) steps",
  "Tests use about twenty fixed mapping lists; precedence between exact and regex rules, re-declaration order and merging of several matching parents only show in particular combinations.",
  [MAP],[("rule tree construction","pmods_from_tuples, Pmod._append_into_regxs"),("descent & merge","Pmod.descend, Pmod._merge"),("alias splicing","Pmod.map_path")],["Pmod.map_path","Pmod.map_paths","Pmod.alias","Pmod.descend"])
p("M03","Using a mapping never changes it",
  "A mapping object gives the same answers for the same path however it has been used before: mapping paths, descending, merging, creating path-objects from it, and referencing, renaming, tagging or locking steps of those path-objects leave the mapping equal to what it was. Two path-objects created from the same mapping do not influence each other.",
  ["histories"],"every sequence up to a depth bound of mapping queries and path-object operations over small mappings, on one shared mapping object",
  "Tests build a fresh mapping for each assertion, so state leaking between uses through shared rule nodes is never exercised.",
  [MAP],[("copy on merge","Pmod._merge, _override_steps, _override_regxs"),("shared rule nodes","Pmod.descend returning a child, Pstep._pmod")],["Pmod.__eq__","Pmod.map_paths","Pstep._paths"],[("rule tree","shared by every path-object made from it","Pmod._steps/_regxs/_alias")])
p("M04","Mapped path-objects name the same paths as mapping their plain paths",
  "For a path-object tree created from a mapping, the paths it reports are those obtained by mapping the paths of the same tree created without mappings, for every tree of attribute references and in whatever order the references are made. Feeding the (original path, current name) pairs of a renamed tree back as mappings reproduces its paths.",
  ["programs","configurations"],"every mapping list of the M02 alphabet (up to 2 or 3 mappings) times every reference tree up to a size bound and reference orders",
  "The two ways of applying a mapping are separate code, and tests compare them on a handful of examples.",
  [MAP],[("lazy construction through the mapping","Pstep.__new__, Pmod.descend"),("bulk mapping","Pmod.map_path")],["Pstep._paths","Pmod.map_path"])
p("M05","Path-object trees behave as an attribute-built tree of steps",
  "After any sequence of references, string assignments, tagging, un-tagging and locking, a path-object tree contains exactly the steps referenced so far, each with its latest name and its own tags, and reports exactly the leaf paths, or the paths carrying a requested tag, and the (original path, current name) pairs. A lock that forbids renaming is refused on a renamed step and one that forbids relocating on a relocated step, changing nothing; assigning anything other than a string or path-object is refused.",
  ["histories"],"every operation sequence up to a depth bound over a small tree and alphabet, checked against a reference tree after every operation",
  "Tests exercise each operation in isolation; tags, children, locks and aliases carried through re-assignment depend on the order of operations.",
  [MAP],[("child (re)creation","Pstep.__getattr__, __setattr__, __make_cstep, _clone_attrs"),("locks","Pstep._locked"),("tags","Pstep._tag, _tag_remove")],["Pstep._paths","Pstep._derrive_map_tuples","Pstep._locked"])

p("M06","Path-object trees from tables, and their steps' attributes and schemas",
  "Building a path-object tree from a table indexed by absolute paths gives exactly the steps of these paths (and of their parents), renamed or relocated by the table's names column as mappings of those pairs would, a row without a name leaving its step as it is; every other column becomes a private attribute of the step at the row's path, and of no other step, with the row's value. The table is not modified. Each step's JSON-schema comes into being when first asked for, then remains the same, holds exactly what was set on it, is independent of the other steps' ones, and follows the step when renamed.",
  ["inputs","histories"],"every table of bounded size over the paths, names and attribute columns of the alphabets, and every sequence of schema operations up to a depth bound",
  "One test builds a flat tree from a table of two rows.",
  [MAP],[("from a table","pstep_from_df"),("schemas","Pstep._schema, _schema_exists, JSchema.todict")],["Pstep._paths","attributes of the steps"])

p("D01","JSON-pointer escaping and splitting round-trip",
  "For every string, escaping it as a JSON-pointer part yields a text without '/' that un-escapes to the original; for every list of strings, joining the escaped parts with '/' gives a pointer whose parts are that list. Strict splitting accepts exactly the empty pointer and those starting with '/', and relaxed splitting accepts everything.",
  ["inputs"],"every string up to a length bound over {~, /, 0, 1, letters, space, non-ASCII} and every list of such strings up to a length bound",
  "Tests check a few pointers; the order of the two substitutions only matters for particular sequences such as '~01'.",
  [PD],[("escape/unescape","escape_jsonpointer_part, unescape_jsonpointer_part"),("splitting","iter_jsonpointer_parts, iter_jsonpointer_parts_relaxed")],["pandalone.pandata"])
p("D02","Setting by JSON-pointer is readable back and touches nothing else",
  "Setting a value at a JSON-pointer in a tree of dictionaries and lists makes resolving that pointer return the value, extends a list only at its end ('-' or an index equal to its length), creates missing branches, and leaves every other location of the document as it was. A pointer it cannot honour (empty, not starting with '/', non-numeric or out-of-range list index) is refused with the documented reference-resolution error and leaves the document unchanged; resolving returns the addressed item, the given default, or that same error.",
  ["inputs","histories"],"every document of bounded size and depth, every pointer over the documents' keys, valid, boundary and invalid indices, and sequences of sets up to a depth bound",
  "Tests set a dozen pointers on fixed documents; index boundaries, replacing scalars by branches and successive sets are combinations they do not reach.",
  [PD],[("setter","set_jsonpointer"),("resolver","resolve_jsonpointer")],["set_jsonpointer","resolve_jsonpointer"])
p("D03","Relative and absolute paths resolve to the addressed item",
  "Resolving a path walks its steps left to right, taking for each the list index, the mapping key or, failing those, the attribute of that name, and an empty step without such an entry restarts from the given root (or the document when none is given). A path that cannot be walked returns the default when one is given, whatever its value, and otherwise raises the reference-resolution error; the document is never modified.",
  ["inputs"],"every path up to a depth bound over keys, indices, attribute names, empty and unknown steps, on documents of nested dicts, lists, objects, Series and DataFrames, with and without default and root",
  "Tests resolve a handful of paths on one document; fall-through order between index, key and attribute and the root switch are only sampled.",
  [PD],[("resolver chain","resolve_path")],["resolve_path"])
p("D04","Model building merges by override, without touching its inputs",
  "Building a model from a stack of submodels yields a tree holding every key of any submodel, where a later submodel's values win over earlier ones, recursively through nested mappings, while sequences are replaced whole. The submodels given by the user are unchanged afterwards and stay unchanged when the built model is modified, and building again yields an equal model.",
  ["inputs","histories"],"every stack of up to 3 submodels out of an alphabet of nested trees (dicts, lists, scalars, null, Series, DataFrames), with schemas with and without defaults, with repeated builds and mutation of the result",
  "Tests merge a few pairs; aliasing between inputs and result, defaults applied at the wrong moment and rebuild effects need specific stacks and histories.",
  [PD],[("recursive merge","Pandel._clone_and_merge_submodels"),("build pipeline","Pandel.build_iter"),("pre-validation","Pandel._prevalidate")],["Pandel.build","Pandel.model"])
p("D05","A failed build step stops the build and is reported",
  "The build runs prevalidation, merge, validation and curation in this order and stops after the first step that reports or raises an error: no later step runs, every error of the failing step is reported followed by one give-up notice, and any exception is reported as a validation error. Building in one go raises exactly the first error the step-wise build would report and returns the model when there is none; each build starts afresh from the state left by any earlier one.",
  ["fault_sequences","histories"],"every placement of failures (schema errors in any submodel or in the merged model, exceptions raised in any curate function) and every sequence of builds up to a bound, with the inputs repaired or broken in between",
  "Tests cover two failing examples; the product of failing step, kind of failure and history of earlier builds is not sampled.",
  [PD],[("step sequencing","Pandel.build_iter, build"),("error flag","Pandel._errored")],["Pandel.build_iter","Pandel.build"])
p("D06","Validation verdicts do not depend on the container type",
  "With default-filling disabled, the validator accepts or rejects a plain JSON tree exactly as a standard JSON-schema validator does, and gives a tree holding the same data in pandas or numpy containers (Series or DataFrame for objects, Series, ndarray or tuple for arrays, numpy scalars for numbers and booleans) the verdict of its plain form. Null, boolean and integer are told apart in both forms.",
  ["inputs","configurations"],"every schema of a bounded grammar over type, enum, const-like, properties, required, additionalProperties, patternProperties, propertyNames, items, numeric and length limits, times every instance of a bounded grammar, times every container representation",
  "Tests validate a curated list of instances; keyword, value and container type combine multiplicatively.",
  [PD],[("type checker","_is_array, _is_object, _is_bool, _is_integer, _is_null"),("overridden rules","_rule_additionalProperties, _rule_propertyNames, rule_enum")],["PandelVisitor"])
p("D07","Automatic defaults and null-removal follow their switches",
  "Validation fills a missing property with its default exactly when default-filling is on, replaces a null exactly when null-defaulting is on and the property's type does not allow null, and otherwise deletes such a null exactly when null-removal is on, a property's own switch winning over the validator's. Properties with a non-null value, and everything the schema does not describe, are never changed, at any depth of the instance.",
  ["configurations","inputs"],"the full table of three tri-state validator switches, three tri-state property switches, default present or not, type allowing null or not, value absent, null (None, NaN) or present, at nesting depth 1 and 2, for dicts, and where representable Series",
  "Tests sample a part of the table; precedence errors hide in single rows of several hundred.",
  [PD],[("properties rule","_rule_auto_defaults_properties"),("switch precedence","first_defined")],["PandelVisitor"])
p("D08","The JSON codec gives back what was encoded",
  "Encoding any picklable value with the JSON codec and decoding the text gives back an equal value of the same type, for any bytes and characters it contains and however it is nested. Decoding JSON text that the codec did not produce gives the plain JSON value.",
  ["inputs"],"every byte and text string up to a length bound over control, line-ending, space, quoting and non-ASCII characters, at run lengths around line-wrapping limits, nested in containers and pandas objects, and plain JSON texts",
  "Tests encode about six objects without comparing all results; corruption depends on particular byte sequences in the encoded form.",
  [PD],[("quoted-printable pickling","JSONCodec.Encoder, JSONCodec.Decoder")],["JSONCodec"])
p("D09","Column headers split into name and units",
  "Parsing a header gives its text before a trailing bracketed or angled units part, trimmed of surrounding blanks, and the text within the delimiters, no units giving none; and a header assembled from a name and units by either delimiter parses back to them. A header with unbalanced or trailing text after the units is refused by returning nothing.",
  ["inputs"],"every string up to a length bound over letters, blanks and the four delimiters, against a reference grammar",
  "Tests parse about ten headers; delimiters in unusual positions are not sampled.",
  [PD],[("header regex","parse_value_with_units")],["parse_value_with_units"])

p("C01","Components discover exactly the paths their function touches",
  "Building a component from a function records as inputs and outputs exactly the mapped paths the function references through its input and output accessors, for any function and mappings, and an assembly records the sorted union over its components. Building again, with the same, other or no mappings, gives what a fresh component would give, in any order of components and builds.",
  ["programs","histories","configurations"],"every function made of up to 3 input/output references over a small path alphabet, every small mapping, every sequence of builds up to a depth bound, assemblies of up to 3 components in any order",
  "Tests build two or three functions once or twice.",
  [CO,MAP],[("build","FuncComponent._build, Assembly._build"),("lazy accessors","FuncComponent.pinp, pout")],["FuncComponent._inp/_out","Assembly._inp/_out"])

p("X01","Targeting finds the first full cell in the direction of the moves",
  "From an empty landing cell (inside or outside the sheet's used area), a capture reference's target moves reach the first full cell met when scanning along the first move and then shifting by the second, and when there is none the capture reports that it is empty. From a full landing cell the search stays put or extends to the last contiguous full cell per direction, as the termination rule and its modifiers select, for the first and for the dependent second edge.",
  ["inputs"],"every full/empty matrix up to 3x3 (quick) or 3x4 and 4x3 (thorough), every landing cell inside and just outside, every legal move pair and modifier, for first and second edge",
  "Tests use one or two matrices with tens of cases; the space of shapes, landings and moves is combinatorial.",
  [CAP],[("search","_target_opposite, _target_same"),("rule selection","resolve_capture_rect")],["resolve_capture_rect"])
p("X02","Expansions grow the captured rectangle only over full cells, to a fixpoint",
  "An expansion applies its moves in the order and number of repetitions written, each move extending the rectangle by one row or column on its side exactly when that row or column holds a full cell, and stops repeating once a round changes nothing. The result contains the original rectangle, always terminates, and is ordered top-left to bottom-right.",
  ["inputs"],"every full/empty matrix up to 3x3 or 3x4, every starting rectangle, and every expansion expression of a bounded grammar of letters, counts, '?' and several groups",
  "Tests check about ten expansions on one matrix.",
  [CAP,PAR],[("expansion","_expand_rect"),("move parsing","parse_expansion_moves")],["resolve_capture_rect"])
p("X03","Cell coordinates name the right cell in every notation",
  "A cell reference in A1 or RC notation, in any case, with positive indices, negative indices counted from the used area's end, '^' and '_' for its first and last row or column, or '.' for the base cell, denotes the cell it describes, for rows and columns independently. Column letters and numbers correspond one-to-one over the whole Excel range; zero and malformed coordinates, and '.' without a base, are refused with a value error.",
  ["inputs"],"all 18278 three-letter-or-less columns, every row/column spelling of the alphabet in both notations, all margins up to a bound and all base cells",
  "Tests convert about twenty coordinates.",
  [CAP,PAR],[("resolution","_resolve_coord, _resolve_cell"),("letters","coords2Cell, _col2num"),("parsing","parse_cell/edge regexes")],["resolve_capture_rect","parse_xlref","coords2Cell"])
p("X04","A lasso returns exactly the cells of the captured rectangle",
  "Lassoing a reference over a sheet returns the scalar of the cell when only one edge is given without expansion, and otherwise the rows and columns of the captured rectangle in sheet order with the sheet's own values, empty cells included. An empty capture yields the empty result unless the caller asked for an error, in which case it raises the documented exception, and the sheet is never modified.",
  ["inputs"],"every sheet of a bounded alphabet of matrices with distinct values, every pair of edges of a bounded grammar, with and without moves, expansions and the no-empty option",
  "Tests lasso a few dozen references on fixed sheets.",
  [LAS,CAP,BE],[("pipeline","Ranger.do_lasso, lasso"),("reading","ABCSheet.read_rect")],["xleash.lasso","Ranger.do_lasso"])
p("X05","Reference parsing recovers every part of the text",
  "For every reference assembled from the documented grammar (workbook, sheet, first and second edge, moves, modifiers, expansions, filters), parsing gives back the parts it was assembled from, independently of letter case in cells and moves and of the delimiters encasing it, with the documented defaults for omitted parts. A text outside the grammar is refused with a syntax error, never silently accepted; filters that are malformed, in a text otherwise within the grammar, are refused with a value error.",
  ["inputs"],"every combination of the grammar's alternatives with bounded repetition, and every single-character deletion, duplication or foreign insertion of sampled sentences judged by an independent reference recogniser",
  "Tests parse some dozens of references.",
  [PAR],[("regexes","parse_xlref, _excel_str_translator, Edge parsing"),("call-specs","parse_call_spec")],["parse_xlref","lasso"])
p("X06","Lassoing leaves no trace in its context, options or environment",
  "A ranger's result for a reference does not depend on the references it lassoed before, and neither the caller's options, nor the ranger's defaults, nor the sheet change through a lasso, even one that fails. Options written in a reference override the base ones for that reference only, and options that it does not mention keep their base value.",
  ["histories","fault_sequences"],"every sequence up to a depth bound of lassos (succeeding, failing at parse, capture, filter, with and without options, recursive) on one ranger, compared with a fresh ranger",
  "Tests use a new ranger per assertion.",
  [LAS,FIL],[("context merging","Ranger._parse_and_merge_with_context"),("option maps","make_default_Ranger, Ranger.base_opts")],["Ranger.do_lasso","Ranger.base_opts"])
p("X07","The sheet cache serves the right, open sheet and closes every one",
  "Whatever the order of adding, fetching, opening siblings and closing, fetching a workbook-and-sheet id returns the sheet last added or opened for that id, never one already closed, and opens nothing that is already cached. Replacing a sheet closes the replaced one and forgets all its ids, and closing the store (also by leaving its context) closes every sheet it holds, even if some fail to close, and leaves it empty and reusable.",
  ["histories","fault_sequences"],"breadth-first over all sequences of add/fetch/sibling/close over 2 workbooks, 2-3 sheets, by name, index and default, with backends that succeed or fail, up to a depth bound with state canonicalisation",
  "Tests add and fetch two or three sheets.",
  [BE],[("cache","SheetsFactory._cache_get/_cache_put/_derive_sheet_keys"),("eviction","SheetsFactory._close_sheet, close")],["SheetsFactory.fetch_sheet","SheetsFactory.add_sheet"],[("cache","(workbook,sheet) id to sheet","SheetsFactory._cached_sheets")])
p("X08","The most willing backend opens the workbook",
  "Among any set of registered backends, the one bidding highest is chosen to open or list a workbook, those declining with no bid are never chosen, and when all decline, or the chosen one finds no sheet, a value error says so. Every request, whether for a workbook's sheet, a sibling sheet of the current one or the current sheet itself, returns the sheet requested.",
  ["configurations"],"every list of up to 4 backends with bids from {none, negative, zero, equal, higher}, and every combination of workbook/sheet id given or not with and without a base sheet, with the caching and the plain store",
  "Tests register one or two backends.",
  [BE],[("bidding","SimpleSheetsFactory.decide_backend"),("dispatch","fetch_sheet, list_sheetnames")],["SimpleSheetsFactory","SheetsFactory"])
p("X09","Excel files read as the data they contain",
  "Reading any rectangle of a workbook file gives the values stored in its cells (numbers, texts, booleans, dates in the workbook's date system, errors as not-a-number, blanks as empty) at their positions, and its used area, full/empty states and captures are those of an in-memory sheet holding the same data. Sheets are found by name and by index alike.",
  ["inputs","configurations"],"every arrangement of the cell types in small sheets, with blank-formatted margins, both date systems, written by an independent writer, every rectangle, compared with an in-memory sheet",
  "Tests read one or two workbooks.",
  [XLRD,BE],[("cell conversion","XlrdSheet._xlrd read_rect"),("states & margins","_read_states_matrix, _read_margin_coords")],["XlrdSheet","lasso"])
p("X10","Redimensioning keeps every value in order with the requested shape",
  "Changing the dimensions of captured values, for any source shape and any target dimension, gives values of that many dimensions holding the same elements in the same order: new dimensions are nested outermost; trivial (single-item) dimensions are dropped from the left, and values not having enough of them are flattened first, so that no value is ever lost (those having many cannot get below 1 dimension). Elements keep their types. Redimensioning to the dimensions a value already has changes nothing.",
  ["inputs"],"all scalars and nested lists with shapes up to 4 dimensions and sizes 0-3, every target dimension 0-4, and chains of two redims",
  "Tests sample some shapes.",
  [FIL],[("redim","_redim, _updim, _downdim, redim_filter")],["redim_filter","lasso filters"])
p("X11","Filters run in order, with their arguments, and errors as configured",
  "The filters written in a reference are applied left to right, each once, on the result of the previous one, with exactly the arguments given, however the call is spelled (name, list or mapping form); piping filters equals applying them one after the other. A failing or unknown filter raises a value error naming it (and describing the failing one in verbose mode), or, in lax mode, is skipped leaving the value of the previous filter.",
  ["programs","fault_sequences"],"every sequence of up to 3 filters from an alphabet of well-behaved, argument-recording and failing ones, every spelling, nested pipes, lax on and off",
  "Tests apply single filters.",
  [FIL,LAS,PAR],[("invocation","Ranger.make_call, pipe_filter"),("spec parsing","parse_call_spec")],["lasso","Ranger.do_lasso"])
p("X12","Recursive and element-wise filters visit what they should, once",
  "An element-wise filter transforms each element of a nested value exactly once, restricted to included and never to excluded keys, down to the given depth, keeping the nesting and everything else as it was; the recursive filter does so with every string that is a reference, replacing it with what it captures. Dependent coordinates are resolved against the element's own position in the sheet where it is known.",
  ["inputs","configurations"],"every nested value of lists and dicts up to depth 3 and width 2, every include/exclude/depth setting, strings that are and are not references",
  "Tests dive two or three structures.",
  [FIL],[("dive","run_filter_elementwise"),("recursion","recursive_filter")],["recursive_filter","run_filter_elementwise","lasso"])
p("X13","Plugins register once and completely",
  "Initialising the extension plugins any number of times, in any order and with some of them failing to load, leaves each loadable filter and backend registered once, and failures are logged without preventing the others. Lookups of a registered filter or backend give the registered one.",
  ["histories","fault_sequences"],"every sequence of initialisations up to 3 over 1-3 plugins, each loading, failing on load or failing on call",
  "Tests rely on the single import-time initialisation.",
  [XI],[("plugin loading","pandalone/xleash/__init__.py:_init_plugins")],["xleash.io_backends","xleash.installed_filters"])
p("X14","A failing lasso tells its stage and keeps what was found so far",
  "Lassoing goes through its stages in order: parsing the reference, opening the sheet, finding the rectangle, reading it, and filtering; a failing stage is the last one. Failures of parsing, opening, finding and filtering are value errors saying what failed, on what, and why; syntax errors, refused empty captures and failures of reading are raised as they are, and anything but a text is refused with a value error. The ranger's intermediate lasso is that of the last stage completed (or of the filter running), with everything known by then, whatever was lassoed before; the lasso returned holds the parts of the reference, the sheet, the rectangle and the values, and parts not written in the reference come from the context.",
  ["fault_sequences","inputs"],"every capture, filter, fault of the sheet or its factory, and context of the alphabets, alone, and every sequence of two or three on one ranger",
  "Tests check the intermediate lasso of two failing filters.",
  [LAS],[("stages","Ranger.do_lasso, _relasso"),("errors","_parse_and_merge_with_context, _open_sheet, _resolve_capture_rect, _run_filters")],["Ranger.do_lasso","Ranger.intermediate_lasso"])

p("U01","Path and URL conversions round-trip and keep folder slashes",
  "Converting any local path to a URL and back gives the absolute normalised path (characters special to URLs excepted, which only the path-to-URL-path conversions encode and decode, exactly), remote URLs pass through with host, query and fragment intact, a Windows path gives the file URL of its drive or host on any platform, converting a URL again changes nothing, and a trailing slash marking a folder is kept by every conversion and normalisation. Path length makes no difference on a platform without path-length limits.",
  ["inputs"],"every path up to a bound on components over names, '.', '..', blanks, '%', non-ASCII, '~', variables, with and without leading/trailing/double slashes, short and beyond 200 characters; a set of remote URLs",
  "The repository's path tests only run on Windows.",
  [UT],[("conversions","path2url, path2urlpath, urlpath2path, normpath, abspath, convpath")],["pandalone.utils"])
p("U02","Generated filenames never clash and extensions are ensured once",
  "The unique filename made for a path is the first of the path itself and its numbered variants that does not exist, with the directory and extension kept. Ensuring an extension gives a name ending with an accepted extension, leaves a name that already has one untouched (in any letter case), appends the first extension otherwise, and doing it twice equals doing it once.",
  ["inputs","histories"],"every subset of existing variants among the first dozen names, names with none, one or several dots, and every combination of extension lists with and without leading dot, plain and regex",
  "Tests try one directory and a dozen names.",
  [UT],[("unique names","make_unique_filename, generate_filenames"),("extensions","ensure_file_ext")],["pandalone.utils"])
p("U03","A directory is ensured under races with other processes",
  "After ensuring that a directory exists returns normally, the directory exists, even when another process creates it, a parent of it or its siblings at any moment in between, and doing it again is harmless. When a non-directory stands in its way, also one appearing meanwhile, it raises an operating-system error, and it never removes or replaces anything.",
  ["schedules"],"every placement of another process's actions (create directory, parent, or file at the path) between any two file-system calls, for existing and missing parents",
  "No test runs it against a concurrent creator.",
  [UT],[("check-then-create","ensure_dir_exists")],["ensure_dir_exists"])
p("U04","Boolean texts convert consistently",
  "Yes, true, on and any other non-blank text convert to true, and no, false, off, 0 and blank to false, in any letter case and with any surrounding blanks; objects convert by their own truth first. Anything that is not a text is refused by the text conversion with a value error.",
  ["inputs"],"all case variants of the words, with bounded blanks around, all strings up to a length bound over a small alphabet, and a set of non-text objects",
  "Tests try about ten words.",
  [UT],[("conversions","str2bool, obj2bool")],["pandalone.utils"])
p("U05","VBA import into an Excel workbook keeps the other modules",
  "Importing VBA files into a workbook leaves one module per file, named after it and holding its text, in place of any module of the same name (in any letter case), keeps every other module, and then saves the workbook once as macro-enabled: under the given output name, else under its own name, with '.xlsm' appended when it is not a macro-enabled one. Nothing is imported or saved when no file matches, or when the workbook is missing or its VBA project is not accessible, which are reported. Excel's alerts are off while saving under another name, so that nothing prompts the user, and on again afterwards, also when saving fails, and the command-line does the same for its arguments, with --pandalone standing for the modules of this package. Removing modules removes exactly the standard modules of the given names, or all of them when none is given.",
  ["inputs","configurations"],"every set of existing modules, files, kinds of workbook and outputs of the alphabets",
  "Excel's objects are stood in for.",
  ["pandalone/xlsutils.py"],[("xlsutils","import_vba_into_excel_workbook")])
p("U06","Captured values convert to pandas tables faithfully",
  "Converting captured rows to a table keeps every value at its row and column, blanks becoming missing, with the header rows, index columns (blanks in several ones filled from above), used columns, names and number of rows that the options select, as pandas defines these options; tables of a single column become series when squeezed. Converting pairs (or a mapping) to a series keeps every value under its key. The captured values are not modified.",
  ["inputs"],"every header row and pattern of blanks of small rectangles under every combination of options listed",
  "How pandas infers types and names blank headers is pandas' own; values compare by equality.",
  ["pandalone/xleash/_pandas_filters.py"],[("filters","df filter, sr filter")])
p("U07","Programs are found in the order of the search path",
  "Searching a program returns the executable regular files named as the program, or as it with a program extension (.bat, .com, .exe) appended, for every folder of the search path in order, and nothing else; folders that are empty, missing or quoted in the path do no harm. The program chosen is the first one found, or none.",
  ["configurations"],"every kind of file in the folders and every search path of the alphabets",
  "POSIX only.",
  ["pandalone/utils.py: py_where, where, which"],[("utils","where, which")])
p("U08","Text helpers and logger-streams keep the text they are given",
  "Writing texts to a logger-stream logs each one once, in order, at the stream's level and without its trailing line-ending, and nothing for empty texts or bare line-endings. Camel-case names become lower-case words separated at each capital following a lower-case letter or digit, the first line of a text is its first non-blank line trimmed, pairs are listed one per line with keys padded to a multiple of the indent, and sequences other than texts become new lists, anything else a list of it.",
  ["inputs"],"every short text and sequence of writes of the alphabets",
  "",
  ["pandalone/utils.py: LoggerWriter, camel_to_snake_case, first_line, format_pairs, as_list"],[("utils","LoggerWriter and text helpers")])
p("U09","Version bumps rewrite both files, test, then commit and tag, in order",
  "Bumping to a new version replaces every occurrence of the current version and date in the version file and the read-me with the new ones, and nothing else in them, then runs the doc-tests, and only when these succeed commits the two files and signs a tag, each only if asked (a tag implies the commit), and each only if the command before it succeeded. A dry run writes no file and executes no command. The same version is refused unless forced, and a version file without version or date is refused, changing nothing; without a new version the current version and date are printed and nothing is changed. Failures end the program with an error.",
  ["fault_sequences","configurations"],"every combination of options, versions and file texts of the alphabets, the tests failing or erring, and each command failing or missing, over sequences of runs",
  "The script has no test, and testing it for real would commit and tag.",
  ["bin/bumpver.py"],[("bumpver","bumpver, main, do_commit, do_tag, replace_substrings")],["the files","the commands executed"])
p("U10","Shortcuts are always saved, with exactly the options given",
  "Creating a Windows shortcut creates one at the given path, sets its target and exactly the non-empty options given, each on its own property, and saves it exactly once, after all of them; if setting any property fails, the shortcut is still saved with those set, and the failure is raised. Asking a special folder returns what the shell gives for its name.",
  ["fault_sequences","inputs"],"every combination of options missing, empty or given, by name and by position, with a failure at any property or call",
  "Windows only, and not tested.",
  ["pandalone/winutils.py"],[("winutils","win_create_shortcut, win_folder")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
