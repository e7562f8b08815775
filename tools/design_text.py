"""Hand-written parts of DESIGN.md: per property (oracle & enumeration, why tests cannot settle it), and what is left open."""
TEXT = {
"M01": ("`refmap.ref_join` (resolve steps left to right) judges `_join_paths` and, through chains of renamed path-objects and mappings, their public reporting; the result is re-split and re-joined.",
        "the algebra (roots, '..' piling up on relative paths) has to hold for sequences, the tests list a dozen."),
"M02": ("`refmap.RefMap` keeps the plain ordered rule list and computes the mapped path by definition (exact > latest regex, merged children, dotted/rooted aliases); every rule list of the alphabet is built with `pmods_from_tuples` and every path mapped.",
        "precedence bugs need 2-4 rules in a particular order and a path two steps deep."),
"M03": ("operation sequences run over ONE mapping with two path-objects; after each operation the mapping must equal a fresh one, answer like a fresh one, and each path-object must look as if it were alone.",
        "aliasing shows only in histories: op on one object, observation on another."),
"M04": ("same rules & reference trees go through `Pmod.step()` path-objects and through `Pmod.map_path` and the reference; all three have to name the same paths; renamed trees are turned back to mappings and re-checked.",
        "two implementations of one semantics; tests exercise each alone."),
"M05": ("`Ref` tree (a dict of children, names, tags, lock) executes the same operations; steps, `_paths` with/without tag/orig, refusals and unchanged-on-refusal compared after each operation; breadth-first over canonical reference states.",
        "lock/rename/tag interplay is a state machine."),
"M06": ("own expectation of steps, attributes and mapped leaf paths (by the reference mapper of M02) for every small table; a dict per step for the schemas, compared after every operation.", "multi-level paths, missing names and duplicated rows combine; the single test has two flat rows."),
"D01": ("identity laws and an own splitter, over all short strings of a hostile alphabet.", "the escape order ('~01') matters on rare combinations only."),
"D02": ("own `ref_set`/`ref_get` on plain documents; every pointer on every document, then all sequences of two sets; frame condition by full comparison of documents.", "frame condition and refusals on every document shape."),
"D03": ("own walker (index, key, attribute, restart) over documents mixing mappings, sequences, objects, pandas; falsy roots and defaults.", "falsy roots/defaults and '' keys in combination."),
"D04": ("own recursive merge; identity checks on all branches; mutation of the model must not show in submodels nor the reverse.", "aliasing needs histories; merge rules need triples."),
"D05": ("reference state machine of the build: every combination of failing/reporting/raising steps, 4 ways to drive the iteration, 2-3 consecutive builds.", "fault placements."),
"D06": ("installed jsonschema (plain validator) on the plain tree is the oracle; the same data in every container style must get the same verdict.", "product of schemas x containers."),
"D07": ("own table of (switches, type, default, value) -> (kept, filled, removed), applied at 6 nestings.", "the full 3-valued switch table has ~20k rows per nesting."),
"D08": ("round trip & own decoder for plain JSON; all bytes pairs at soft-line-break offsets.", "codec bugs depend on byte values at offsets."),
"D09": ("own hand-written header parser without regexes.", "delimiter nesting."),
"C01": ("own tracer computing the mapped reference sets from M02's reference; build/call histories, nested & shared assemblies.", "stale state between builds."),
"U01": ("own normaliser (`posix` only), RFC-3986 split by hand.", "product of flags, slashes, URLs."),
"U02": ("own first-free search over every subset of existing files (really created).", "subsets of existing variants."),
"U03": ("stateless exploration: every file-system call of the function is a scheduling point at which another process may act; all schedules up to 2 (3) actions are re-executed from a fresh scratch tree.", "races."),
"U04": ("own word table.", "letter-case/blank/neighbour products."),
"U07": ("own PATH search over really created scratch directories, for every subset of candidate files, kinds (executable, plain, directory, dangling link) and PATH orders.", "depends on the environment and on the order of PATH."),
"U05": ("own expectation of modules & saves; the real code drives stand-ins of xlwings & COM (unique names ignoring case, com_error on missing items).", "module sets x name clashes x workbook kinds; and the tests are skipped without Excel."),
"U08": ("own definitions, character by character.", "line-ending and capitals corner-cases."),
"U09": ("the script is loaded from /repo with its `__file__` in a scratch tree; `subprocess`, `os.system` and the doc-tests are recording stand-ins which also snapshot the files; own plan of files, tests and commands for every combination of options, texts and failing step.", "fault placements; a real run would commit & tag."),
"U10": ("own table of properties; a stand-in shell failing at any property or call.", "fault placements."),
"U06": ("own table builder (header rows with right-filling, dedupe, index columns, selections) on plain lists, compared cell by cell with the DataFrame; on the unrepaired tree the filters do not even load with the installed pandas.",
        "header/index/blank combinations."),
"X01": ("own cell-walker written from the documentation over every full/empty pattern of the small sheets.", "patterns x moves x terminations is a product no test samples adequately."),
"X02": ("own rectangle grower, one row/column at a time, over every pattern, rectangle and short expansion.", "as above; termination included (watchdog)."),
"X03": ("own base-26 & margin arithmetic.", "range boundaries (Z/AA, ZZ/AAA, XFD), margins."),
"X04": ("values sliced from the plain nested list with rectangles from the X01-X02 reference (`refxl`).", "empty margins, 0-sized and 1-cell sheets."),
"X05": ("own recursive-descent parser of the documented grammar; sentences assembled, single-edit mutants of them, all short texts.", "the real parser is one big regex; mutants of sentences find accept/refuse differences."),
"X06": ("each lasso in a sequence compared with the same lasso on a fresh ranger, and all inputs compared before/after.", "leaks need a 2nd lasso, or a failing one."),
"X07": ("reference cache (ids -> sheet; sheet -> ids) with logging stand-in sheets that may fail to close; sequences, and breadth-first over canonical cache states.", "protocol with aliasing ids."),
"X08": ("own argmax; stand-in backends.", "bid combinations & request sequences."),
"X09": ("an own .xlsx writer writes each sheet; values read through the real xlrd backend compared with the plain data; captures compared with ArraySheet's.", "cell kinds, date systems, layouts of files with used area not at A1."),
"X10": ("own `ref_redim` on nested lists.", "all shapes to 4 dims."),
"X11": ("own interpreter of filter programs; tracing filters record calls.", "lax/strict x failing position x spelling."),
"X12": ("own recursive visitor, with own addressing of dependent coordinates.", "nesting x include/exclude x depth."),
"X13": ("plugin distributions with entry-points generated into a scratch folder and discovered by the installed pkg_resources; own registry model.", "initialisation histories with failures."),
"X14": ("own model of the stages; stand-in sheets and factory failing on demand, filters failing by themselves.", "a fault at every stage x captures x filters x contexts, and what one lasso leaves to the next."),
}
LIMITS = """
## Left open (where the documentation is silent or ambiguous, a check accepts either)

* M02: escapes ~0/~1 in mapped paths (upstream to-do), trailing slashes of rules.
* M05: grafted steps (`p.b = p.a`) keep their original path; grandchildren of copies are shared.
* D02: in-range negative indices. D03: numeric parts over texts and arrays.
* D04: merging two nulls is refused; a null over a value keeps the value; mappings within Series are not recursed.
* D06: NaN as null; Series/DataFrame where a schema tells arrays from objects; min/maxProperties on DataFrames; integral floats
  against 'integer'; multi-dimensional arrays; one-element NaN arrays; boolean `items` along with `additionalItems` (jsonschema 3.2 crashes by itself).
* D07: an absent type does not allow null (test-pinned); missing properties are filled regardless; an own switch left null counts as not given.
* D08: streaming with `json.dump`; numpy's own pickling normalises byte-orders.
* D09: angled units holding angles or closing parentheses.
* U01: POSIX only; leading '//' and URL-special characters in `path2url`; trailing '.'/'..' as folder marks.
* U02: empty names, names ending with '/', empty extensions, dangling links. U04: bytes.
* U06: headers clashing with de-duplicated ones, duplicate keys of series, and a first row below 2 header rows having as many blanks as non-index
  columns (pandas takes it for the indices' names).
* X04: cells beyond the sheet may be absent or None; a single cell beyond: error or None.
* X05: A1-notation '.' in the 1st edge; `[]` and `""` as filters; empty fragments; line-breaks; drive-letter URLs.
* X06: recursive lassos use the base options, not the enclosing reference's.
* X07: adding a sheet without sheet-ids registers it as its workbook's default (test-pinned); different spellings of a path are
  different ids; failing closes.
* X08: ties between bids: any of the highest may serve.
* X09: .xlsx only (there is no BIFF writer here); serial 60 (the 1900 leap-year bug); URL-special characters in file names; negative
  sheet indices; padded results of text formulas (xlrd strips them).
* X10: values having too few trivial dimensions get flattened (to 1-D at least), then nested up.
* X12: positions below dicts and below flattened tables; include/exclude apply to dicts at any depth, to pandas labels only at the top;
  tuples, sets & arrays are not dived into; falsy scalars as include/exclude.
* X13: order of loading; BaseExceptions. X14: the values of the intermediate lasso while a filter runs.

Out of scope, as unfinished upstream and without effect: `Pandel.mod_global_operations()` & `unified_contexts` (private state only, the
former always fails), the never-registered `Pandel._rule_*` methods, `build_all_jsonpaths()` ("quick and dirty"), `normalize_local_url()`
(not called, and not callable), `open_file_with_os()`, and `sample_projects/`.

## Not applicable

None at the moment. (U05 needs Excel: its code runs on stand-ins of Excel's objects; the stand-ins' fidelity is an assumption.)
"""
