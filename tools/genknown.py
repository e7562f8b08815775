#!/usr/bin/env python3
"""Write known_findings.json: the genuine defects found, and the commits of /repo repairing them."""
import json, subprocess
FIXED = [
 ("M05", "8a0627e", "a child step renamed to '' (the root) was re-created by its next reference, losing its name, tags and children"),
 ("M03", "f81cf33", "p.a = 'X' rewrote the mapping shared with other path-objects and with the caller"),
 ("M04", "5188ddd", "path-objects of rooted, dotted or empty rules reported '//R' or '/a/./X', or ignored the rule, unlike map_path()"),
 ("M05", "cd2779d", "a step locked against renaming or relocating could still be renamed by assignment"),
 ("D02", "ce0731e", "set_jsonpointer() accepted '' and scalar documents silently or failed with other errors, and wrote at too negative indices"),
 ("D03", "65f3a90", "resolve_path(doc, '/a', root={}) ignored a falsy root, and restarted from the current item without a root"),
 ("D04", "e5614f7", "building modified the 1st submodel, and the model shared its branches with the submodels"),
 ("D04", "8231a55", "a scalar over a mapping, or a mapping over a scalar, failed or got lost, instead of overwriting"),
 ("D05", "72b1dcd", "a step reporting errors by its iterator did not stop the build; Pandel.get() returned nothing"),
 ("D07", "6320896", "defaults were filled in by reference: modifying a model modified its schema"),
 ("D06", "42ff305", "enum, const & uniqueItems failed on, or mis-judged, pandas/numpy instances"),
 ("D06", "76ec0e5", "the null-check of a single-cell DataFrame returned a DataFrame and failed"),
 ("D07", "fd7f8af", "a schema's own autoDefault switches were ignored when the validator's were all off; boolean property-schemas failed"),
 ("D08", "7fa5db8", "JSONCodec corrupted objects whose pickle had newlines, and failed decoding plain JSON lists/scalars"),
 ("C01", "e031b11", "a component mapped to the root step ('') lost its inputs & outputs"),
 ("U04", "c7a316d", "obj2bool(1) and any other true non-text failed"),
 ("U01", "0a8e83b", "urlpath2path() of paths longer than 200 characters appended the Windows UNC prefix to them, on every platform"),
 ("U01", "19638d0", "paths ending with repeated slashes lost their folder mark"),
 ("U01", "297cb55", "path2url('~/a') kept the tilde, and path-less URLs grew a '.'"),
 ("U02", "6d30ee2", "make_unique_filename() ignored its filename-generator argument"),
 ("U02", "5ac5ccc", "ensure_file_ext('foo.xlsmX', '.xlsm') took the partial extension as given, and extension lists appended twice"),
 ("U03", "28e9296", "ensure_dir_exists() returned normally when a file appeared concurrently in the directory's place"),
 ("U01", "9845c33", "path2url('a//b') took 'b' for a host or root, instead of the path a/b"),
 ("X05", "aab1976", "references encased by delimiters failed to parse when having filters"),
 ("X05", "815e413", "'#A1:\"f!\"' took everything before the '!' in the filters for a sheet-name"),
 ("X05", "9bde3df", "expansions with repetitions like 10 were refused, and malformed ones accepted until lassoing"),
 ("X05", "2888b67", "non-ASCII letters & digits were accepted as coordinates"),
 ("X05", "829c774", "the documented '-' modifier of moves was refused"),
 ("X03", "b57410e", "negative coordinates reaching before the 1st row/column wrapped or returned negative cells"),
 ("X03", "3ffb8c9", "coords2Cell() wrote wrong letters beyond column ZZ"),
 ("X04", "eaee2e7", "ArraySheet([[1, 'a']]) turned numbers into texts"),
 ("X04", "4b10244", "errors while capturing single-edge references escaped as other than value errors"),
 ("X06", "2cb4450", "options in a reference dropped all base options"),
 ("X06", "5a1876f", "base_opts given replaced the default ones, instead of overlaying them"),
 ("X11", "535cc2b", "lax of a filter applied only to its first element"),
 ("X11", "b4f3190", "a laxed element-wise filter failing midway left the value half-processed"),
 ("X11", "3de92e9", "failing filters raised AttributeError (inspect.getargspec) when verbose"),
 ("X08", "f2bcf64", "SimpleSheetsFactory failed fetching a sibling of the current sheet"),
 ("X09", "207960b", "dates of workbooks in the 1904 system were read 4 years off"),
 ("X09", "447ce1a", "remote workbooks failed to open with xlrd"),
 ("X09", "06ea2d3", "remote workbooks whose URL has ;params failed to open"),
 ("X10", "ac4a814", "redim failed dropping non-adjacent trivial dimensions, or returned fewer than asked"),
 ("X10", "2d677c5", "redim coerced lists mixing types into texts"),
 ("X12", "0ef6050", "element-wise filters mixed up pandas values with duplicate labels"),
 ("X12", "bbefbd6", "dependent coordinates in lists were resolved from the captured rect, not each element's cell, when pandas is installed"),
 ("X11", "73d8817", "a laxed filter returning something other than a lasso replaced the value"),
 ("U06", "e83623b", "the df & sr filters failed to load with pandas >= 1.0 (renamed internals)"),
 ("U06", "7e26620", "the df filter wrote the filled-in blanks into the captured values"),
 ("U06", "789262c", "the df filter failed with a list index_col and no header"),
 ("U06", "78d0179", "the df filter ignored nrows, keep_default_na, and (with pandas >= 2.0) squeeze"),
 ("U06", "bc760dd", "the df filter raised NameError on usecols like 'A:C'"),
 ("U06", "6de15d9", "the df filter returned a DataFrame instead of a lasso on empty values, which fails filtering"),
 ("U06", "87cb05e", "the df filter lost the blank rows of single columns"),
 ("U06", "8951c8f", "the df filter filled blank indices and headers from skipped rows, and from the header itself"),
 ("U07", "f20c51c", "searching 'foo' found 'foocom', and never 'foo.com'"),
 ("U05", "1e9df97", "_remove_vba_modules() given several names removed only some of them (an iterator was exhausted)"),
 ("U08", "5436cea", "LoggerWriter cut a text ending with 2 '\\r\\n' in the middle of the first one, and took away more line-endings than the last"),
 ("M06", "9b1a58f", "pstep_from_df() failed on rows without a name"),
 ("M06", "592ab91", "pstep_from_df() attached names & attributes of '/A/b' to a step literally named 'A/b', un-renamed"),
 ("U05", "5d13f78", "xlsutils --pandalone searched the VBA modules in a folder without any"),
 ("U05", "1449dea", "failing to save a workbook left the alerts of Excel off"),
 ("X07", "f52b445", "closing the store left sheets open, and cached, when an earlier one failed to close"),
 ("D07", "19af8e6", "float('nan') was not taken as null, only the np.nan object"),
]
out = {"findings": [], "fixed": []}
for prop, commit, what in FIXED:
    subprocess.check_output(["git", "-C", "/repo", "cat-file", "-e", commit])
    out["findings"].append(dict(property=prop, key="", status="fixed", commit=commit, what=what))
    out["fixed"].append("fixed: property=%s %s %s" % (prop, commit, what))
json.dump(out, open("/verif/known_findings.json", "w"), indent=1)
