"""S05: what body/rawbody/full/uri rules see."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import gen, mime

PROPERTY = "S05"
RULE = ("cases are MIME trees (nested multiparts, attached messages, up to ~8 leaves) of plain, html and non-text parts in every transfer encoding and several charsets, "
        "with probe words and URLs placed in text, markup, attributes, comments, part headers, preambles and binary parts; non-trivial = at least two text leaves or a "
        "nested tree, with an encoded (quoted-printable/base64) text leaf")
ASSUMPTIONS = ["words inside <script>/<style> and text glued across inline tags are not judged", "8bit parts are UTF-8 (the program reads mail as UTF-8)"]

TOK = ["tok%02dz" % i for i in range(24)]
# bytes that no text in that charset contains: what is around them is still text
BROKEN = {"utf-8": b"\xff\xc3", "gb2312": b"\xff\xff", "euc-jp": b"\xff", "us-ascii": b"\xe9\xff", None: b"\xc3\xa9", "x-unknown-cs": b"\xe9"}
INTL = {"utf-8": ["caf\u00e9q", "\u043f\u0440\u0438\u0432\u0435\u0442", "\u65e5\u672c\u8a9e", "\u0130ZMIR"], "iso-8859-1": ["caf\u00e9q", "\u00fcberq"], "windows-1251": ["\u043f\u0440\u0438\u0432\u0435\u0442"],
        "koi8-r": ["\u043f\u0440\u0438\u0432\u0435\u0442"], "shift_jis": ["\u65e5\u672c\u8a9e"], "gb2312": ["\u6c49\u5b57"], "utf-16": ["caf\u00e9q", "\u65e5\u672c\u8a9e"], "us-ascii": [], "x-unknown-cs": [], None: []}
INTL["euc-jp"] = ["\u65e5\u672c\u8a9e"]
ALL_INTL = sorted(set(sum(INTL.values(), [])))
URLS = ["http://h%d.example.com/p%d" % (i, i) for i in range(6)] + ["https://s.example.org/a?b=c&d=e", "ftp://files.example.net/x", "www.bare.example.com/z", "ftp.bare.example.com", "http://10.1.2.3:8080/q", "HTTP://caps.example.com/C"]

tok = st.sampled_from(TOK)


@st.composite
def plain(draw, charset):
    """lines of words/urls"""
    lines = []
    for _ in range(draw(st.integers(1, 4))):
        items = draw(st.lists(st.one_of(tok, tok, st.sampled_from(URLS), st.sampled_from(INTL[charset]) if INTL[charset] else tok), min_size=1, max_size=4))
        lines.append(items)
    return lines


@st.composite
def html(draw, charset):
    nodes = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["text", "text", "tag", "attr", "comment", "link", "url", "open", "amp"]))
        words = draw(st.lists(st.one_of(tok, st.sampled_from(INTL[charset]) if INTL[charset] else tok), min_size=1, max_size=3))
        nodes.append([k, words, draw(st.sampled_from(URLS)), draw(st.sampled_from([" ", "\n"]))])
    return nodes


@st.composite
def leaf(draw):
    kind = draw(st.sampled_from(["plain", "plain", "html", "html", "bin", "other"]))
    cte = draw(st.sampled_from(mime.CTES))
    if kind == "bin":
        return dict(kind="bin", ctype=draw(st.sampled_from(["application/octet-stream", "image/png", "application/html", "audio/x-wav"])), words=draw(st.lists(tok, min_size=1, max_size=3)), cte=cte,
                    url=draw(st.sampled_from(URLS)), hdr=draw(st.one_of(st.none(), tok)))
    charset = draw(st.sampled_from([None, "us-ascii", "utf-8", "utf-8", "x-unknown-cs"] if cte in ("7bit", "8bit") else sorted(c for c in INTL if c) + ["utf-8", None]))
    if cte == "7bit" and charset == "utf-8":
        cte = "8bit"
    if cte == "quoted-printable" and charset == "utf-16":
        cte = "base64"
    return dict(kind=kind, charset=charset, cte=cte, spell=draw(st.integers(0, 2)), content=draw(html(charset) if kind == "html" else plain(charset)), crlf=draw(st.booleans()),
                width=draw(st.sampled_from([11, 60, 76])), hdr=draw(st.one_of(st.none(), tok)), q=draw(st.sampled_from(["%s", '"%s"'])), up=draw(st.booleans()), sub=draw(st.sampled_from(["calendar", "x-thing", "enriched", "x-html", "xhtml"])), broken=draw(st.sampled_from([0, 0, 0, 1, 2])),
                markup=draw(st.booleans()), gap=draw(st.sampled_from([" ", " ", "  ", "\t"])), blank=draw(st.booleans()))


tree = st.recursive(leaf(), lambda s: st.one_of(
    st.fixed_dictionaries(dict(kind=st.just("multi"), sub=st.sampled_from(["mixed", "alternative", "related", "report"]), children=st.lists(s, min_size=1, max_size=3),
                               preamble=st.one_of(st.none(), tok), epilogue=st.one_of(st.none(), tok))),
    st.fixed_dictionaries(dict(kind=st.just("rfc822"), children=st.lists(s, min_size=1, max_size=1), subject=tok))), max_leaves=7)

case_st = st.fixed_dictionaries(dict(tree=tree, subject=st.lists(tok, max_size=3), xh=tok))


class Acc(object):
    def __init__(self):
        self.body, self.raw, self.urls, self.phrases, self.rawphrases = set(), set(), set(), set(), set()
        self.text_leaves = self.encoded = self.depth = 0


def build(n, acc, depth=0):
    acc.depth = max(acc.depth, depth)
    k = n["kind"]
    if k == "multi":
        return dict(ctype="multipart/" + n["sub"], children=[build(c, acc, depth + 1) for c in n["children"]], preamble=(n["preamble"] or "") , epilogue=(n["epilogue"] or ""))
    if k == "rfc822":
        return dict(ctype="message/rfc822", children=[build(n["children"][0], acc, depth + 1)], inner_headers=[["From", "inner@example.com"], ["Subject", "inner " + n["subject"]]])
    if k == "bin":
        text = " ".join(n["words"]) + " " + n["url"] + "\n"
        h = [["X-Part", n["hdr"]]] if n["hdr"] else []
        if n["cte"] != "7bit":
            h.append(["Content-Transfer-Encoding", n["cte"]])
        return dict(ctype=n["ctype"], headers=h, body=mime.encode_body(text, "utf-8", n["cte"]))
    acc.text_leaves += 1
    if n["cte"] in ("quoted-printable", "base64"):
        acc.encoded += 1
    seen_b, seen_r, urls = set(), set(), set()
    charset = n["charset"]
    enc = charset if charset not in (None, "x-unknown-cs") else "us-ascii"
    if k == "html":
        parts = ["<html><body>"]
        for kind, words, url, sep in n["content"]:
            t = sep.join(words)
            if kind in ("text", "tag", "link", "open", "amp"):
                seen_b.update(words)
                acc.phrases.update(" ".join(p) for p in zip(words, words[1:]))
            if sep == "\n":
                acc.rawphrases.update("\n".join(p) for p in zip(words, words[1:]))
            seen_r.update(words)
            if kind == "text":
                parts.append(" %s " % t)
            elif kind == "amp":
                parts.append(" %s &amp; " % t)
            elif kind == "tag":
                parts.append("<p class='x'>%s</p>" % t)
            elif kind == "attr":
                parts.append('<img alt="%s">' % t)
            elif kind == "comment":
                parts.append("<!-- %s -->" % t)
            elif kind == "link":
                parts.append('<a href="%s">%s</a>' % (url, t))
                urls.add(url)
            elif kind == "url":
                parts.append("<p>%s</p><b>%s</b>" % (url, t))
                seen_b.update(words)
                acc.phrases.update(" ".join(p) for p in zip(words, words[1:]))
                urls.add(url)
            elif kind == "open":
                parts.append("<br/>%s <" % t + " ")
        text = "\n".join(parts) + "</body></html>\n"
        sub = "html"
    else:
        gap = n.get("gap", " ")
        for items in n["content"]:
            seen_b.update(i for i in items if i not in URLS)
            acc.phrases.update(gap.join(p) for p in zip(items, items[1:]))
            acc.rawphrases.update(gap.join(p) for p in zip(items, items[1:]))
            urls.update(i for i in items if i in URLS)
        nl = "\n\n" if n.get("blank") else "\n"
        for a, b in zip(n["content"], n["content"][1:]):
            acc.phrases.add(a[-1] + " " * len(nl) + b[0])
            acc.rawphrases.add(a[-1] + nl + b[0])
        seen_r = set(seen_b)
        text = nl.join(gap.join(i) for i in n["content"]) + "\n"
        if n.get("markup"):
            # what is not an HTML part has no tags to remove
            w = n["content"][0][0]
            text = "<b>%s</b> <!-- %s -->\n" % (w, w) + text
            acc.phrases.add("<b>%s</b> <!-- %s -->" % (w, w))
        sub = "plain" if k == "plain" else n["sub"]
    acc.body |= seen_b
    acc.raw |= seen_r
    acc.urls |= urls
    h = []
    if n["hdr"]:
        h.append(["X-Part", n["hdr"]])
        h.append(["Content-Disposition", 'inline; filename="%s.txt"' % n["hdr"]])
    sp = mime.CTE_SPELL[n["cte"]]
    sp = sp[n["spell"] % len(sp)]
    if sp:
        h.append(["Content-Transfer-Encoding", sp])
    ctype = "text/" + sub
    if charset:
        ctype += "; charset=" + n["q"] % (charset.upper() if n["up"] else charset)
    elif k == "plain" and n["up"]:
        ctype = None
    return dict(ctype=ctype, headers=h, body=mime.encode_body(text, enc, n["cte"], crlf=n["crlf"], width=n["width"], junk=BROKEN.get(charset) if n.get("broken") and k != "html" else None, where=n.get("broken")))


def esc(s):
    return "".join(c if c.isalnum() and ord(c) < 128 else ("\\n" if c == "\n" else "\\t" if c == "\t" else " " if c == " " else "\\u%04x" % ord(c)) for c in s)


def body(case, w, note):
    acc = Acc()
    node = build(case["tree"], acc)
    raw = mime.render(node, top_headers=[["From", "a@example.com"], ["X-Hdr", case["xh"] + " http://header.example.com/"], ["Subject", " ".join(case["subject"])], ["MIME-Version", "1.0"]])
    words = TOK + ALL_INTL
    lines, exp = [], {}
    for i, t in enumerate(words):
        lines += ["body B%d /%s/" % (i, esc(t)), "rawbody R%d /%s/" % (i, esc(t)), "full F%d /%s/" % (i, esc(t))]
        exp["B%d" % i] = t in acc.body or t in case["subject"]
        exp["R%d" % i] = t in acc.raw
        exp["F%d" % i] = t in raw
    for i, u in enumerate(URLS + ["http://header.example.com/"]):
        lines.append("uri U%d m{^%s$}" % (i, u.replace(".", "\\.").replace("?", "\\?")))
        exp["U%d" % i] = u in acc.urls
    for i, p in enumerate(sorted(acc.phrases)):
        if any(u in p for u in URLS):
            continue
        lines.append("body P%d /%s/" % (i, esc(p)))
        exp["P%d" % i] = True
    for i, p in enumerate(sorted(acc.rawphrases)):
        if any(u in p for u in URLS):
            continue
        lines.append("rawbody Q%d /%s/" % (i, esc(p)))
        exp["Q%d" % i] = True
    if case["subject"]:
        lines.append("body SUBJ /^%s/" % " ".join(case["subject"]))
        exp["SUBJ"] = True
    lines.append("rawbody TAGS /<html><body>/")
    lines.append("body NOTAGS /<html>|<body>|<p class|<a href/")
    exp["TAGS"] = "html" in str([l for l in leaves(case["tree"])])
    exp["NOTAGS"] = False
    lines.append("body NL /\\n/")
    exp["NL"] = False
    res = w.call("core.scan", dict(files=[["a.cf", "\n".join(lines) + "\n"]], msgs=[raw]))
    check(res["load_exc"] is None, "the configuration failed to load", exc=res["load_exc"])
    out = res["results"][0]
    check("exc" not in out, "scanning raised", msg=raw, out=out)
    got = set(out["tests"])
    diff = []
    byname = dict((l.split()[1], l) for l in lines)
    for n, e in sorted(exp.items()):
        if (n in got) != e:
            diff.append("%s: %s" % ("should match" if e else "should not match", byname[n]))
    check(not diff, "rules that see something else than documented: " + "; ".join(diff[:6]), message=raw)
    note.nontrivial((acc.text_leaves >= 2 or acc.depth >= 1) and acc.encoded)
    note.event("depth %d" % min(acc.depth, 4), "text leaves %d" % min(acc.text_leaves, 5))


def leaves(n):
    if "children" in n:
        for c in n["children"]:
            yield from leaves(c)
    else:
        yield n["kind"]


FACETS = [Facet("tree", case_st, body, quick=1600)]
