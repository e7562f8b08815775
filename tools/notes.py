DIFF = "bounded exhaustive enumeration of inputs on the real code, against an independent reference model"
SEQ = "bounded exhaustive exploration of operation sequences on the real code, against a reference model"
TRUST = " Trusts the hand-written reference model in mc/ and says nothing beyond the alphabets and bounds listed in the evidence."
TECH.update(M01=DIFF, M02=DIFF, M03=SEQ, M04="bounded exhaustive enumeration of mappings and reference programs, differential between two implementations and a reference model", M05=SEQ + ", plus breadth-first search over canonical states")
NOTE.update(
 M01="Exhaustive over all step sequences of the alphabet up to the stated lengths." + TRUST,
 M02="Exhaustive over all ordered mapping lists (up to 4 rules) of the alphabet and all short paths. Escaped characters (~0, ~1) inside mapped paths are outside the alphabet (documented as to-do upstream)." + TRUST,
 M03="Exhaustive over operation sequences on one shared mapping; compares with a fresh mapping and with each path-object alone." + TRUST,
 M04="Exhaustive over small mapping lists and reference trees; the two code paths and the model must all agree." + TRUST,
 M05="Every operation sequence of the alphabet to the stated depth, all observations compared after every operation; breadth-first deeper, states merged by reference tree." + TRUST,
)
def _n(what):
    return what + TRUST
TECH.update(
 D01=DIFF, D02=SEQ + " on documents", D03=DIFF, D04=DIFF, D05="bounded exhaustive enumeration of fault placements and inputs over the build steps, on the real code, against a reference state machine",
 D06=DIFF, D07=DIFF, D08=DIFF, D09=DIFF, C01="bounded exhaustive enumeration of component graphs and call histories on the real code, against a reference model",
 U01=DIFF, U02=DIFF + ", over all sets of existing files", U03="stateless exploration of the real code under every schedule of another process's actions at its file-system calls, up to a bound on actions, by re-execution", U04=DIFF,
 X01=DIFF, X02=DIFF, X03=DIFF, X04=DIFF, X05="bounded exhaustive enumeration of the reference grammar's sentences and of their single-edit mutants on the real parser, against an independent parser",
 X06=SEQ, X07=SEQ + ", with breadth-first search over canonical cache states", X08="bounded exhaustive enumeration of backend sets, bids and request sequences on the real code, against a reference model", X09="bounded exhaustive enumeration of sheets, written as real workbook files and read back by the real code, differential against in-memory sheets",
 X10=DIFF, X11=DIFF, X12=DIFF, X13="bounded exhaustive enumeration of plugin sets, failures and initialisation sequences on the real code, against a reference model",
)
NOTE.update(
 D01=_n("Exhaustive over token lists of the alphabet, and over all texts up to the stated length."),
 D02=_n("Exhaustive over small documents, all pointers of the alphabet, and sequences of writes. In-range negative indices are left open."),
 D03=_n("Exhaustive over small documents, paths and roots. Numeric parts over texts and arrays are left open."),
 D04=_n("Exhaustive over pairs and triples of small trees; aliasing is observed by identity and by later mutation."),
 D05=_n("Exhaustive over which steps fail, how, and how the iteration is driven."),
 D06=_n("Exhaustive over a list of schemas and of instances in plain and in pandas/numpy form; pandas forms that are ambiguous in JSON are left out (see DESIGN.md)."),
 D07=_n("Exhaustive over switches, schemas and small instances of the alphabet."),
 D08=_n("Exhaustive over nested values of the alphabet up to the stated size."),
 D09=_n("Exhaustive over texts assembled from the alphabet."),
 C01=_n("Exhaustive over small component sets, their mappings and assembly calls."),
 U01=_n("POSIX only; exhaustive over the paths and URLs of the alphabets."),
 U02=_n("Exhaustive over the subsets of existing variants and the extension lists of the alphabet."),
 U03=_n("Every call of the code to the file system (os.stat, lstat, mkdir, access, listdir, scandir) is a scheduling point; the other process's actions before each are enumerated."),
 U04=_n("Exhaustive over texts up to the stated length and the words with one edit."),
)
NOTE.update(
 X01=_n("Exhaustive over the full/empty patterns of small sheets, landings, moves and modifiers; the reference model walks the cells as documented."),
 X02=_n("Exhaustive over the full/empty patterns of small sheets, rectangles and short expansions; the reference model grows the rectangle as documented."),
 X03=_n("Exhaustive over columns and rows (also beyond Excel's limits) and small margins and bases."),
 X04=_n("Exhaustive over the full/empty patterns of small sheets and a set of captures. Cells beyond the sheet may be absent or null."),
 X05=_n("Exhaustive over the combinations of the grammar's alternatives, single edits of a list of sentences, and short texts. Some corners of the grammar are left open (see DESIGN.md)."),
 X06=_n("Exhaustive over sequences of captures out of a list, on one shared ranger, each compared with the same one on a fresh ranger."),
 X07=_n("Exhaustive over sequences of cache operations; breadth-first deeper, states merged by the canonical form of the reference cache. Failing closes are not covered."),
 X08=_n("Exhaustive over backends' bids and request sequences; on ties any of the highest bidders may serve."),
 X09=_n("The .xlsx files are written by an own writer and read by the installed xlrd 1.2; .xls (BIFF) files are not covered."),
 X10=_n("Exhaustive over nested lists up to the stated shapes, and rects of a small sheet."),
 X11=_n("Exhaustive over programs of filters of the alphabet, their spellings, and where laxing is asked for."),
 X12=_n("Exhaustive over nested values up to the stated size. Positions of elements below dicts and below flattened tables are unknown, hence left open."),
 X13=_n("Plugins are really packaged in a scratch folder and discovered through their entry-points; each plugin's behaviour in each initialisation is enumerated."),
)
TECH.update(X14="exhaustive fault injection in every stage of lassoing, on the real code, over captures x filters x contexts and sequences of lassos, against a reference model of the stages")
NOTE.update(X14=_n("The sheet and the sheets-factory are stand-ins failing on demand; every single fault at every stage is explored."))

TECH.update(U06=DIFF)
NOTE.update(U06=_n("Exhaustive over small tables, header rows, blanks and combinations of options; type inference is left to pandas."))

TECH.update(U05="bounded exhaustive enumeration of workbooks, files and options on the real code, against a reference model, Excel's objects being stood in for", U07=DIFF + ", over all sets of files", U08=DIFF)
NOTE.update(
 U05=_n("Excel is not available: the real code runs on stand-ins of its objects (workbook, VBA components, xlwings, COM errors)."),
 U07=_n("POSIX only; exhaustive over the kinds of files in the folders and the search paths of the alphabet."),
 U08=_n("Exhaustive over texts up to the stated length and sequences of writes."),
)

TECH.update(M06=DIFF + ", and of operation sequences on schemas", U09="bounded exhaustive enumeration of options, texts, fault placements and run sequences on the real script, in a scratch tree with recorded stand-ins of git and the tests, against a reference model", U10="bounded exhaustive enumeration of options and fault placements on the real code, against a reference model, the shell being stood in for")
NOTE.update(
 M06=_n("Exhaustive over small tables and short sequences of schema operations; paths with regular expressions, and steps named like methods of texts, are left out."),
 U09=_n("The commands are recorded, never executed; exhaustive over options, small file texts and the failing step."),
 U10=_n("The Windows shell is a stand-in; exhaustive over the options and the failing call."),
)
