"""Fifth round of planted bugs."""
from seedspecs import *  # noqa
from seedspecs import seed, MP, PD, UT, CO, CA, PA, FI, LA, BE, XR, XI

seed("x10-transpose-3d", "X10",
     [(FI, '''            values = values.T
''', '''            values = values.swapaxes(0, 1) if values.ndim > 1 else values
''')],
     r'''
from pandalone.xleash._filter import _redim
got = _redim([[[1, 2], [3, 4]], [[5, 6], [7, 8]]], (None, True))
assert got == [[[1, 5], [3, 7]], [[2, 6], [4, 8]]], got
''', "transposing values of 3 dimensions", "Only the first 2 dimensions get swapped.")

seed("x10-flatten-order", "X10",
     [(FI, '''        values = _updim(values.flatten(), new_ndim)
''', '''        values = _updim(values.ravel(order="K"), new_ndim)
''')],
     r'''
from pandalone.xleash._filter import _redim
got = _redim([[1, 2], [3, 4]], (1, True))
assert got == [1, 3, 2, 4], got
''', "transposing and reducing to fewer dimensions at once", "The flattened values come in memory-order, as if never transposed.")

seed("x04-beyond-margins", "X04",
     [(XR, '''                except IndexError:
                    pass
                row.append(None)
''', '''                    row.append(None)
                except IndexError:
                    break
''')],
     r'''
import os, shutil, tempfile
import openpyxl
from pandalone import xleash
d = tempfile.mkdtemp()
try:
    wb = openpyxl.Workbook()
    wb.active["A1"] = 1
    wb.active["B2"] = 2
    fn = os.path.join(d, "a.xlsx")
    wb.save(fn)
    got = xleash.lasso("file://%s#A1:D3" % fn)
    assert got == [[1, None, None, None], [None, 2, None, None], [None] * 4], got
finally:
    shutil.rmtree(d)
''', "rectangles reaching beyond the last cell", "Their rows are cut short.")

seed("d08-istext", "D08",
     [(PD, '''            pickle_str = binascii.b2a_qp(pickle_bytes, istext=False).decode(
''', '''            pickle_str = binascii.b2a_qp(pickle_bytes).decode(
''')],
     r'''
import json
from pandalone.pandata import JSONCodec
for o in ("a\r\nb", "x\ny", list(range(30)), b"\r\n \n"):
    assert json.loads(json.dumps(o, cls=JSONCodec.Encoder), cls=JSONCodec.Decoder) == o, o
''', "pickles with bytes looking like line-endings", "They decode as others.")

seed("d04-falsy-base", "D04",
     [(PD, '''                if key in a:
                    val = self''', '''                if a.get(key):
                    val = self''')],
     r'''
from pandalone.pandata import Pandel
from jsonschema import ValidationError
class P(Pandel):
    def _get_json_schema(self, is_prevalidation):
        return {}
p = P()
p.add_submodel({"a": 0})
p.add_submodel({"a": None})
assert p.build() == {"a": 0}, p.model
''', "a null over a falsy value", "Nulls override falsy values, unlike all others.")

seed("u03-file-in-place", "U03",
     [(UT, '''                raise
    if not os.path.isdir(path):
        raise IOError("%r exists but is not a directory" % path)
''', '''                raise
            if not os.path.isdir(path):
                raise IOError("%r exists but is not a directory" % path)
''')],
     r'''
import os, shutil, tempfile
from pandalone.utils import ensure_dir_exists
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "f")
    open(f, "w").close()
    try:
        ensure_dir_exists(f)
    except OSError:
        pass
    else:
        raise AssertionError("a file was taken as a folder")
finally:
    shutil.rmtree(d)
''', "a file lying already there", "It is taken as a folder.")


from seedspecs6 import *  # noqa
