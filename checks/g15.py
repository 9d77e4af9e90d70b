"""G15: charsets are accepted exactly for the allowed locales."""
import base64
from hypothesis import strategies as st
from harness import mime
from harness.core import Facet, check, check_eq

PROPERTY = "G15"
RULE = ("cases are generated charset names (any spelling of the known ones, near misses, western and Unicode families) with locale lists, and messages with generated charsets in encoded headers and parts under an ok_locales setting; answers and rules are compared with the published table; "
        "non-trivial = the charset belongs to a locale of the table or is a near miss of such a one")
ASSUMPTIONS = ["text without a charset in Subject or From counts as outside every list of locales, as the test suite pins"]
CYR = "KOI8R KOI8U KOI8T ISOIR111 CP1251 GEORGIANPS PT154 CP866".split()
TABLE = {"ja": "EUCJP JISX020119760 JISX020819830 JISX020819900 JISX020819970 JISX021219900 JISX021320001 JISX021320002 SHIFT_JIS SHIFTJIS ISO2022JP SJIS JIS7 JISX0201 JISX0208 JISX0212".split(),
         "ko": ["EUCKR", "KSC56011987"], "th": ["TIS620"], "zh": "GB1988 GB2312 GB231219800 GB18030 GBK BIG5HKSCS BIG5 EUCTW ISO2022CN".split(), "ru": CYR, "ka": CYR, "tg": CYR, "be": CYR, "uk": CYR, "bg": CYR}
WEST = ["US-ASCII", "ISO-8859-1", "ISO-8859-15", "iso8859_7", "ISO-10646-UCS-2", "UTF-8", "utf-16le", "UTF-7", "UCS-2", "ucs-4le", "CP1250", "CP1252", "cp-1257", "Windows-1251", "windows-874", "UNICODE-1-1-UTF-7", "x-unknown", "ISO"]
OTHER = ["IBM037", "HZ-GB-2312", "x-user-defined", "macintosh", "ASCII", "US-ASCII-2", "ISO-2022-KR", "KOI8", "BIG", "GB", "EUC", "EUCJPX", "XEUCJP", "TIS62", "IBM852", "VISCII", "hebrew", "8859-1", "none", "x", "default", "ISOX"]
SPELLED = {"EUCJP": "EUC-JP", "ISO2022JP": "ISO-2022-JP", "SHIFTJIS": "Shift_JIS", "EUCKR": "EUC-KR", "KSC56011987": "KS_C_5601-1987", "KOI8R": "KOI8-R", "TIS620": "TIS-620", "GB231219800": "GB_2312-1980-0", "BIG5HKSCS": "Big5-HKSCS", "ISO2022CN": "ISO-2022-CN"}
KNOWN = sorted(set(c for l in TABLE.values() for c in l if c != "SHIFT_JIS"))


@st.composite
def spelling(draw, names, seps="-_. /"):
    name = draw(st.sampled_from(names))
    name = SPELLED.get(name, name) if draw(st.booleans()) else name
    how = draw(st.integers(0, 3))
    out = name.lower() if how == 1 else name.upper() if how == 2 else name.title() if how == 3 else name
    if seps and draw(st.integers(0, 3)) == 0:
        i = draw(st.integers(1, len(out)))
        out = out[:i] + draw(st.sampled_from(list(seps))) + out[i:]
    return out


def charset(seps="-_. /"):
    return st.one_of(spelling(KNOWN, seps), spelling(KNOWN, seps), spelling(WEST, seps), spelling(OTHER, seps))


locale = st.sampled_from(sorted(TABLE) * 2 + ["en", "C", "fr", "gr", "zh_TW", "zh_CN.UTF-8", "ru_RU", "ja_JP", "ko_KR.eucKR", "xx", "j", "e"])


def fine(cs, locales):
    name = "".join(c for c in cs.upper() if c.isascii() and c.isalnum())
    if name in ("USASCII", "XUNKNOWN", "ISO") or name.startswith(("ISO8859", "ISO10646", "UTF", "UCS", "CP125", "WINDOWS", "UNICODE11UTF7", "UNICODE11UTF8")):
        return True
    return any(name in TABLE.get("en" if l == "C" else l[:2], ()) for l in locales)


def interesting(cs):
    name = "".join(c for c in cs.upper() if c.isalnum())
    return any(k[:3] in name for k in KNOWN)


table_st = st.lists(st.tuples(st.one_of(charset(), charset(), st.text(max_size=12)), st.lists(locale, max_size=4)).map(list), min_size=1, max_size=8)


def table_body(case, w, note):
    got = w.call("misc.charsets", dict(queries=case))
    for (cs, locales), r in zip(case, got):
        check_eq(r, fine(cs, locales), "charset accepted", charset=cs, locales=locales)
        note.nontrivial(interesting(cs) and bool(locales))


MAIL = charset("-_")
segment = st.fixed_dictionaries(dict(charset=st.one_of(MAIL, MAIL, MAIL, st.none()), q=st.booleans(), data=st.sampled_from(["\xc1\xc2\xc3", "plain", "\xd0\xdd \xe1", "x=y_z"])))
header = st.one_of(st.none(), st.lists(segment, min_size=1, max_size=3))
# from the first byte on: share of the bytes beyond ASCII
part = st.fixed_dictionaries(dict(charset=st.one_of(st.none(), MAIL, MAIL), sub=st.sampled_from(["plain", "html", "plain"]), high=st.sampled_from([0, 1, 4, 5, 6, 10, 50]), low=st.sampled_from([0, 1, 4, 5, 6, 10]), cte=st.sampled_from(["base64", "quoted-printable"]), quoted=st.booleans()))
mail_st = st.fixed_dictionaries(dict(ok=st.one_of(st.lists(locale, min_size=1, max_size=3).map(" ".join), st.lists(locale, min_size=1, max_size=3).map(" ".join), st.sampled_from(["all", "ALL", "en all", "all ru", "ru  en", "All"])), subject=header, sender=header, parts=st.lists(part, min_size=1, max_size=3), alternative=st.booleans()))


def encode(segs):
    words = []
    for s in segs:
        if s["charset"] is None:
            words.append("plain text")
        elif s["q"]:
            words.append("=?%s?q?%s?=" % (s["charset"], "".join(chr(b) if chr(b).isascii() and chr(b).isalnum() else "=%02X" % b for b in s["data"].encode("latin-1"))))
        else:
            words.append("=?%s?b?%s?=" % (s["charset"], base64.b64encode(s["data"].encode("latin-1")).decode("ascii")))
    return " ".join(words)


def mail_body(case, w, note):
    head = []
    if case["subject"]:
        head.append(["Subject", encode(case["subject"])])
    head.append(["From", encode(case["sender"]) if case["sender"] else "=?utf-8?q?a=40example=2Ecom?="])
    kids = []
    for p in case["parts"]:
        data = b"a" * p["low"] + b"\xcf" * p["high"]
        cs = p["charset"]
        kids.append(dict(ctype="text/%s%s" % (p["sub"], "" if cs is None else "; charset=\"%s\"" % cs if p["quoted"] else "; charset=" + cs), headers=[["Content-Transfer-Encoding", p["cte"]]], body=mime.b64(data) if p["cte"] == "base64" else "".join("=%02X" % b if b > 126 else chr(b) for b in data)))
    node = kids[0] if len(kids) == 1 else dict(ctype="multipart/%s" % ("alternative" if case["alternative"] else "mixed"), children=kids)
    raw = mime.render(node, top_headers=head)
    lines = ["loadplugin oa.plugins.mime_eval.MIMEEval", "loadplugin oa.plugins.header_eval.HeaderEval", "ok_locales " + case["ok"],
             "header HEADERS eval:check_for_faraway_charset_in_headers()", "body BODY eval:check_for_faraway_charset()", "body ANY eval:check_for_mime('mime_faraway_charset')"]
    r = w.call("core.scan", dict(files=[["a.cf", "\n".join(lines) + "\n"]], msgs=[raw]))["results"][0]
    info = dict(ok=case["ok"], raw=raw)
    check("exc" not in r, "the scan completes", exc=r.get("exc"), **info)
    ok = case["ok"].split()
    everything = "all" in [x.lower() for x in ok]
    segs = (case["subject"] or []) + (case["sender"] or [dict(charset="utf-8")])
    faraway = any(p["charset"] is not None and not fine(p["charset"], ok) and p["charset"][0].isalpha() for p in case["parts"])
    want = {"HEADERS": not everything and any(s["charset"] is None or not fine(s["charset"], ok) for s in segs),
            "ANY": not everything and faraway, "BODY": not everything and faraway and any(p["high"] > p["low"] for p in case["parts"])}
    for name in want:
        check_eq(name in r["tests"], want[name], "rule " + name, **info)
    note.nontrivial(any(x["charset"] and interesting(x["charset"]) for x in segs + case["parts"]))


FACETS = [Facet("table", table_st, table_body, quick=400), Facet("mail", mail_st, mail_body, quick=400)]
