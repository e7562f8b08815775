"""Writes minimal .xlsx files, with full control over what each cell stores."""
import datetime
import io
import zipfile
from xml.sax.saxutils import escape, quoteattr

NS = 'xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships"'
STYLES = (
    '<styleSheet %s><numFmts count="1"><numFmt numFmtId="170" formatCode="yyyy\\-mm\\-dd hh:mm"/></numFmts><fonts count="1"><font/></fonts><fills count="1"><fill/></fills>'
    '<borders count="1"><border/></borders><cellStyleXfs count="1"><xf numFmtId="0"/></cellStyleXfs>'
    '<cellXfs count="11"><xf numFmtId="0"/><xf numFmtId="14"/><xf numFmtId="170"/><xf numFmtId="2"/><xf numFmtId="9"/>'
    '<xf numFmtId="1"/><xf numFmtId="3"/><xf numFmtId="11"/><xf numFmtId="12"/><xf numFmtId="44"/><xf numFmtId="49"/></cellXfs></styleSheet>'
) % NS
NAN = float("nan")


def moment(serial, mac):
    """The date & time of a serial number."""
    days, ms = divmod(round(serial * 86400000), 86400000)
    secs, ms = divmod(ms, 1000)
    if days == 0:
        h, secs = divmod(secs, 3600)
        return datetime.time(h, secs // 60, secs % 60, ms * 1000)
    epoch = datetime.datetime(1904, 1, 1) if mac else datetime.datetime(1899, 12, 31 if days < 60 else 30)
    return epoch + datetime.timedelta(days, secs, 0, ms)


# name: (kind, stored, expected); dates' expectation depends on the date system
KINDS = {
    "none": ("", None, None),
    "blank": ("blank", None, None),
    "int": ("n", "7", 7),
    "zero": ("n", "0", 0),
    "neg": ("n", "-3", -3),
    "float": ("n", "2.5", 2.5),
    "small": ("n", "1E-3", 0.001),
    "huge": ("n", "1E+22", 10 ** 22),
    "percent": ("n4", "0.5", 0.5),
    "two-dec": ("n3", "36925.5", 36925.5),
    "text": ("s", "txt", "txt"),
    "digits": ("s", "5", "5"),
    "spaced": ("s", "  a b ", "  a b "),
    "xml": ("inline", "é<&>\"'\nx", "é<&>\"'\nx"),
    "emptytxt": ("s", "", ""),
    "true": ("b", "1", True),
    "false": ("b", "0", False),
    "div0": ("e", "#DIV/0!", NAN),
    "na": ("e", "#N/A", NAN),
    "name": ("e", "#NAME?", NAN),
    "negfloat": ("n", "-0.75", -0.75),
    "date": ("n1", "36925", None),
    "moment": ("n2", repr(36925 + 45296 / 86400.0), None),
    "time": ("n2", "0.25", None),
    "early": ("n1", "3", None),
    "fnum": ("f", "8", 8),
    "fstr": ("fs", "res", "res"),
}
DATES = ("date", "moment", "time", "early")


def expected(kind, mac=False):
    if isinstance(kind, tuple):
        if kind[0] in ("n1", "n2"):  # a date of the given serial
            return moment(float(kind[1]), mac)
        if kind[0][0] == "n":
            v = float(kind[1])
            return int(v) if v.is_integer() else v
        return {"b": lambda v: v == "1", "e": lambda v: NAN}.get(kind[0], lambda v: v)(kind[1])
    return moment(float(KINDS[kind][1]), mac) if kind in DATES else KINDS[kind][2]


def colname(c):
    return chr(65 + c) if c < 26 else colname(c // 26 - 1) + chr(65 + c % 26)


def cell(kind, r, c, sst):
    k, v = kind if isinstance(kind, tuple) else KINDS[kind][:2]
    ref = "%s%i" % (colname(c), r + 1)
    if not k:
        return ""
    if k == "blank":
        return '<c r="%s" s="1"/>' % ref
    if k[0] == "n":
        return '<c r="%s" s="%s"><v>%s</v></c>' % (ref, k[1:] or 0, v)
    if k == "s":
        return '<c r="%s" t="s"><v>%i</v></c>' % (ref, sst.setdefault(v, len(sst)))
    if k == "inline":
        return '<c r="%s" t="inlineStr"><is><t xml:space="preserve">%s</t></is></c>' % (ref, escape(v))
    if k == "f":
        return '<c r="%s"><f>1+7</f><v>%s</v></c>' % (ref, v)
    if k == "fs":
        return '<c r="%s" t="str"><f>"res"</f><v>%s</v></c>' % (ref, escape(v))
    return '<c r="%s" t="%s"><v>%s</v></c>' % (ref, k, v)


def workbook(sheets, mac=False):
    """Bytes of a workbook; sheets: [(name, rows of kind-names, dimension or None)]."""
    sst = {}
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as zf:
        rels = books = ""
        for i, (name, rows, dim) in enumerate(sheets, 1):
            xml = "<worksheet %s>%s<sheetData>" % (NS, '<dimension ref="%s"/>' % dim if dim else "")
            for r, row in enumerate(rows):
                cells = "".join(cell(k, r, c, sst) for c, k in enumerate(row))
                if cells or r % 2:
                    xml += '<row r="%i">%s</row>' % (r + 1, cells)
            zf.writestr("xl/worksheets/sheet%i.xml" % i, xml + "</sheetData></worksheet>")
            rels += '<Relationship Id="rId%i" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet" Target="worksheets/sheet%i.xml"/>' % (i, i)
            books += '<sheet name=%s sheetId="%i" r:id="rId%i"/>' % (quoteattr(name), i, i)
        texts = "".join('<si><t xml:space="preserve">%s</t></si>' % escape(t) for t in sst)
        zf.writestr("xl/sharedStrings.xml", '<sst %s count="%i">%s</sst>' % (NS, len(sst), texts))
        zf.writestr("xl/styles.xml", STYLES)
        base = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"
        rels += '<Relationship Id="rIdS" Type="%sstyles" Target="styles.xml"/><Relationship Id="rIdT" Type="%ssharedStrings" Target="sharedStrings.xml"/>' % (base, base)
        zf.writestr("xl/_rels/workbook.xml.rels", '<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">%s</Relationships>' % rels)
        zf.writestr("xl/workbook.xml", "<workbook %s><workbookPr%s/><sheets>%s</sheets></workbook>" % (NS, ' date1904="1"' if mac else "", books))
    return out.getvalue()
