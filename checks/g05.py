"""G05: body, MIME, header and URI eval checks compute their documented measure."""
import collections
import itertools
import re
from fractions import Fraction
from hypothesis import strategies as st
from harness import mime
from harness.core import Facet, check, check_eq

PROPERTY = "G05"
RULE = ("cases are generated messages (text and HTML alternatives, encoded parts, recipient lists, subjects, dates, links) with several eval rules each, whose arguments lie on, just below and just above the true value of the measured quantity, computed by a reference implementation; "
        "non-trivial = at least one rule is expected to match and one not to")
ASSUMPTIONS = ["text/HTML part words are separated by white space", "bounds are put exactly on the value only where it is exactly representable", "a message has a Date header when dates are compared and no Received date equals it", "subjects are one line of ASCII text unless illegal characters are counted"]
WORDS = ["alpha", "Alpha", "beta", "gamma,", "it's", "well-known", "delta", "42", "caf\u00e9", "stock", "target", "hello"]
word = st.sampled_from(WORDS)
side = st.sampled_from([-1, 0, 1])
bound = st.tuples(side, side, st.booleans()).map(list)
STOCK = {"stock", "target", "company", "companyname", "sector", "projected", "position", "ticker", "symbol", "expectations", "marketperformance", "pricetarget", "rating", "recommendation", "openingprice", "currentprice"}


def dyadic(v):
    return v.denominator & (v.denominator - 1) == 0


def arg(v, off, exact=None, step=Fraction(1, 100)):
    """A decimal near v: below, at or above it."""
    if off == 0 and (exact if exact is not None else dyadic(v)):
        return v
    return Fraction(round(float(v), 4)).limit_denominator(10000) + (off or 1) * step


def fmt(v):
    return repr(float(v)) if v.denominator != 1 else str(int(v))


def limits(v, b, exact=None, step=Fraction(1, 100)):
    return arg(v, b[0], exact, step), arg(v, b[1], exact, step)


def call(fn, b, *args):
    q = "'%s'" if b[2] else "%s"
    return "%s(%s)" % (fn, ", ".join(q % a for a in args))


class Rules(object):
    def __init__(self, plugins):
        self.lines = ["loadplugin oa.plugins.%s" % p for p in plugins]
        self.want = {}

    def add(self, kind, evalstr, expected, name=None):
        name = "%s%d" % (name or "R", len(self.want))
        self.lines.append("%s %s eval:%s" % (kind, name, evalstr))
        self.want[name] = bool(expected)


def scan(w, lines, raw, want=()):
    res = w.call("core.scan", dict(files=[["a.cf", "\n".join(lines) + "\n"]], msgs=[raw], want=list(want)))
    check(res["load_exc"] is None, "the configuration failed to load", lines=lines, exc=res["load_exc"])
    out = res["results"][0]
    check("exc" not in out, "scanning raised", lines=lines, raw=raw, out=out)
    return out


def judge(w, note, rules, raw):
    tests = set(scan(w, rules.lines, raw)["tests"])
    for name, exp in sorted(rules.want.items()):
        line = [l for l in rules.lines if (" %s " % name) in l]
        note.event("%s %s" % (re.search(r"eval:(\w+)", line[0]).group(1), "hit" if exp else "miss"))
        check((name in tests) == exp, "%s %s, expected %s" % (line[0], "matched" if name in tests else "did not match", "a match" if exp else "none"), raw=raw)
    check_eq(sorted(tests - set(rules.want)), [], "unexpected matches", raw=raw)
    note.nontrivial(any(rules.want.values()) and not all(rules.want.values()))


# body_eval
body_st = st.fixed_dictionaries(dict(
    text=st.lists(word, max_size=10), html=st.lists(word, max_size=10), extra=st.lists(word, max_size=4), shape=st.sampled_from(["alt", "alt", "alt", "htmlfirst", "nested", "noalt", "altalt", "two"]), cte=st.sampled_from(["8bit", "base64", "quoted-printable"]), subject=st.sampled_from(["plain subject", "stock tip", "A  B"]),
    b=st.lists(bound, min_size=8, max_size=8)))


def tokens(words):
    return collections.Counter(re.sub(r"[^\w]", "", x).lower() for x in words)


def leaf(sub, text, cte):
    return dict(ctype="text/%s; charset=utf-8" % sub, headers=[["Content-Transfer-Encoding", cte]], body=mime.encode_body(text, "utf-8", cte))


def alt_body(case, w, note):
    t = leaf("plain", " ".join(case["text"]) + "\n", case["cte"])
    h = leaf("html", "<html><body><p>" + " ".join("<b>%s</b>" % x if i % 3 == 2 else x for i, x in enumerate(case["html"])) + "</p></body></html>\n", case["cte"])
    kids = [h, t] if case["shape"] == "htmlfirst" else [t, h]
    alt = dict(ctype="multipart/mixed" if case["shape"] == "noalt" else "multipart/alternative", children=kids)
    if case["shape"] == "nested":
        alt = dict(ctype="multipart/mixed", children=[alt, leaf("plain", " ".join(case["extra"]) + "\n", "8bit")])
    more = []
    if case["shape"] == "altalt":
        alt = dict(ctype="multipart/alternative", children=[alt, leaf("plain", " ".join(case["extra"]) + "\n", case["cte"])])
        more = case["extra"]
    elif case["shape"] == "two":
        alt = dict(ctype="multipart/mixed", children=[alt, dict(ctype="multipart/alternative", children=[leaf("plain", " ".join(case["extra"]) + "\n", case["cte"])])])
        more = case["extra"]
    raw = mime.render(alt, top_headers=[["From", "a@example.com"], ["Subject", case["subject"]], ["MIME-Version", "1.0"]])
    tt, ht = (tokens(case["text"] + more), tokens(case["html"])) if case["shape"] != "noalt" else (tokens([]), tokens([]))
    valid = sum(1 for x in tt if x in ht and tt[x] >= ht[x])
    diff = Fraction(100 * (len(ht) - valid), len(ht)) if ht else Fraction(0)
    r = Rules(["body_eval.BodyEval"])
    for b in case["b"][:3]:
        lo, hi = limits(diff, b, exact=dyadic(diff / 100))
        r.add("body", call("multipart_alternative_difference", b, fmt(lo), fmt(hi)), lo <= diff <= hi)
    ratio = Fraction(len(tt), len(ht)) if ht else Fraction(0)
    for b in case["b"][3:6]:
        lo, n = arg(ratio, b[0]), max(0, len(ht) + b[1])
        r.add("body", call("multipart_alternative_difference_count", b, fmt(lo), n), len(ht) > 0 and ratio > lo and len(ht) >= n)
    judge(w, note, r, raw)


LINES = ["some text here", "", "  ", "\t", "word", "buy this stock now", "company target ticker", "the sector position: projected", "x", "caf\u00e9 au lait", "Rating openingprice", "  indented", "hello world", "stock stock stock"]
lines_st = st.fixed_dictionaries(dict(lines=st.lists(st.one_of(st.sampled_from(LINES), st.sampled_from(["", "word"])), max_size=14), end=st.booleans(), kind=st.sampled_from(["plain", "plain", "html"]), cte=st.sampled_from(["8bit", "base64", "quoted-printable"]), subject=st.sampled_from(["plain subject", "stock tip", "A  B"]), b=st.lists(bound, min_size=9, max_size=9)))


def lines_body(case, w, note):
    text = "\n".join(case["lines"]) + ("\n" if case["end"] and case["lines"] else "")
    raw = mime.render(leaf(case["kind"], text, case["cte"]), top_headers=[["From", "a@example.com"], ["Subject", case["subject"]], ["MIME-Version", "1.0"]])
    seen = scan(w, ["loadplugin oa.plugins.body_eval.BodyEval"], raw, ["text"])
    r = Rules(["body_eval.BodyEval"])
    for kind, text in (("body", seen["text"]), ("rawbody", seen["raw_text"])):
        if kind == "rawbody" and case["kind"] == "plain":
            for l in case["lines"]:
                check(l.strip() in text, "a line of the message is missing from its text", line=l, raw=raw)
        sp = sum(1 for c in text if re.match(r"\s", c))
        for b in case["b"][:2]:
            if len(text) > sp:
                v = Fraction(100 * sp, len(text) - sp)
                lo, hi = limits(v, b, exact=dyadic(v / 100))
                r.add(kind, call("tvd_vertical_words", b, fmt(lo), fmt(hi)), lo <= v <= hi)
        n = sum(1 for x in re.findall(r"[^\W\d_]+", text) if x.lower() in STOCK)
        for b in case["b"][2:4]:
            r.add(kind, call("check_stock_info", b, n + b[0]), n >= n + b[0])
    if case["kind"] == "plain":
        ls = seen["raw_text"].split("\n")[:-1]
        blank = sum(1 for l in ls if not l.strip())
        for b in case["b"][4:7]:
            v = Fraction(100 * blank, len(ls)) if ls else Fraction(0)
            lo, hi = limits(v, b, exact=dyadic(v / 100))
            r.add("rawbody", call("check_blank_line_ratio", b, fmt(lo), fmt(hi)), len(ls) >= 1 and lo <= v <= hi)
            n = max(len(ls) + b[1], 0)
            r.add("rawbody", call("check_blank_line_ratio", b, 0, 100, n), len(ls) >= max(1, n))
    judge(w, note, r, raw)


# mime_eval
piece = st.sampled_from(["some text here ", "x", "more words and words ", "&#x00E9;", "&#xABCD;", "=3D", "=41", "=3A", "=2C", "=5F", "=6B", "=4d", "=09", "=C3", "=7E", "=0D", "caf\u00e9 ", "\n", "\n", "line: with a colon " + "y" * 70, "z" * 78, "q" * 81, "\x0b", "\x7f", "UPPER CASE words ", "12345 "])
mpart = st.fixed_dictionaries(dict(sub=st.sampled_from(["plain", "plain", "html"]), cte=st.sampled_from([None, "7bit", "8bit", "base64", "Base64", "quoted-printable", "Quoted-Printable", "quoted-printable"]), charset=st.sampled_from([None, "us-ascii", "US-ASCII", "utf-8", "utf-8"]), pieces=st.lists(piece, max_size=8), width=st.sampled_from([20, 60, 76]), longhdr=st.integers(0, 1).map(bool)))
attach = st.sampled_from(["application/rtf", "image/png", "ceva", "multipart/related", "application/octet-stream", "text/richtext"])
mime_st = st.fixed_dictionaries(dict(parts=st.lists(mpart, min_size=1, max_size=3), shape=st.sampled_from(["single", "mixed", "alternative", "nested", "alternative"]), extra=st.one_of(st.none(), attach), epilogue=st.sampled_from(["", "", "tail of the message\n"]), b=st.lists(bound, min_size=12, max_size=12), hname=st.sampled_from([0, 0, 0, 256, 257]), hval=st.sampled_from([0, 0, 0, 8192, 8193]),
                                     nosep=st.booleans()))


def mime_body(case, w, note):
    single = case["shape"] == "single"
    parts = case["parts"][:1] if single else case["parts"]
    kids, src = [], []
    for p in parts:
        cte = (p["cte"] or "").lower()
        text = "".join(p["pieces"])
        body = text
        if cte == "base64":
            body = mime.b64(text.encode("utf-8"), p["width"])
        elif cte == "quoted-printable":
            body = re.sub("[^\n\x0b\x7f -~]", lambda m: "".join("=%02X" % b for b in m.group(0).encode("utf-8")), text)
        src.append((p, cte, text, body))
        kids.append(dict(ctype="text/%s%s" % (p["sub"], "; charset=%s" % p["charset"] if p["charset"] else ""), headers=([["Content-Transfer-Encoding", p["cte"]]] if p["cte"] else []) + ([["X-Long", "v" * 100]] if p["longhdr"] else []), body=body))
    extra = None
    if case["extra"] and not single:
        extra = case["extra"]
        if extra == "multipart/related":
            kids.append(dict(ctype=extra, children=[dict(ctype="text/html; charset=utf-8", headers=[], body="<p>related</p>")]))
        else:
            kids.append(dict(ctype=extra, headers=[["Content-Transfer-Encoding", "base64"]] if not extra.startswith("text") and extra != "ceva" else [], body=mime.b64(b"\x01\x02binary" * 9) if not extra.startswith("text") and extra != "ceva" else "rich"))
    head = [["From", "a@example.com"], ["Subject", "s"]]
    if case["hname"]:
        head.append(["X" * case["hname"], "v"])
    if case["hval"]:
        head.append(["X-Value", "w" * case["hval"]])
    if single:
        node = kids[0]
    else:
        node = dict(ctype="multipart/%s" % ("mixed" if case["shape"] in ("mixed", "nested") else "alternative"), children=kids, epilogue=case["epilogue"])
        if case["shape"] == "nested":
            node = dict(ctype="multipart/mixed", children=[dict(ctype="multipart/alternative", children=kids, epilogue="ignored epilogue\n"), dict(ctype="application/x-thing", headers=[], body="data")], epilogue=case["epilogue"])
    raw = mime.render(node, top_headers=head)
    alternative = case["shape"] in ("alternative", "nested")
    r = Rules(["mime_eval.MIMEEval"])
    n_html = sum(1 for p, _, _, _ in src if p["sub"] == "html") + (extra == "multipart/related")
    n_text = sum(1 for p, _, _, _ in src if p["sub"] == "plain") + (extra == "ceva")
    b64s = [body for _, cte, _, body in src if cte == "base64"] + ([mime.b64(b"\x01\x02binary" * 9)] if extra and not extra.startswith("text") and extra not in ("multipart/related", "ceva") else [])
    qps = [body for _, cte, _, body in src if cte == "quoted-printable"]
    r.add("body", "check_for_mime_html()", n_html, "HTML")
    r.add("body", "check_for_mime_html_only()", n_html and not n_text, "HTMLONLY")
    for key, v in (("mime_body_html_count", n_html), ("mime_body_text_count", n_text), ("mime_base64_count", len(b64s)), ("mime_qp_count", len(qps)), ("mime_multipart_alternative", alternative)):
        r.add("body", "check_for_mime('%s')" % key, v)
    r.add("body", "check_ma_non_text()", alternative and extra in ("image/png", "application/octet-stream", "ceva"), "MA")
    longest = max([0] + [len(l) for b in b64s for l in b.split("\n")])
    for b in case["b"][:2]:
        r.add("body", call("check_base64_length", b, longest + b[0], longest + b[1]), b[0] <= 0 <= b[1])
        r.add("body", call("check_base64_length", b, longest + b[0]), b[0] <= 0)
    qbytes = sum(len(q) for q in qps)
    qchars = sum(len(re.findall("=(?:09|3[0-9ABCEF]|[2456][0-9A-F]|7[0-9A-E])", q)) for q in qps)
    v = Fraction(qchars, qbytes) if qbytes else Fraction(0)
    small = Fraction(1, 1000)
    for b in case["b"][2:4]:
        lo, hi = limits(v, b, step=small)
        r.add("body", call("check_qp_ratio", b, fmt(lo), fmt(hi)), lo <= v <= hi)
        r.add("body", call("check_qp_ratio", b, fmt(lo)), lo <= v)
    r.add("body", "check_for_mime('mime_qp_long_line')", any(len(l) > 79 for q in qps for l in q.split("\n")), "LONG")
    plain = [(p, cte, text, body) for p, cte, text, body in src if p["sub"] == "plain"]
    if all(cte != "quoted-printable" and p["charset"] == "utf-8" for p, cte, _, _ in plain):
        chars = sum(len(t) for _, _, t, _ in plain)
        ents = sum(len(re.findall("&#x[0-9A-F]{4};", t)) for _, _, t, _ in plain)
        v = Fraction(ents, chars) if chars else Fraction(0)
        for b in case["b"][4:6]:
            lo, hi = limits(v, b, step=small)
            r.add("body", call("check_abundant_unicode_ratio", b, fmt(lo), fmt(hi)), lo <= v <= hi)
        if all(cte != "quoted-printable" and p["charset"] == "utf-8" for p, cte, _, _ in src) and extra not in ("multipart/related", "ceva"):
            hchars = sum(len(t) for p, _, t, _ in src if p["sub"] == "html")
            v = Fraction(chars, hchars) if chars and hchars else Fraction(1)
            for b in case["b"][6:8]:
                lo, hi = limits(v, b, step=small)
                r.add("body", call("check_mime_multipart_ratio", b, fmt(lo), fmt(hi)), lo <= v < hi)
    illegal = any((p["charset"] or "us-ascii").lower() == "us-ascii" and cte in ("", "7bit") and re.search("[^\t\n -~]", text) for p, cte, text, _ in plain)
    r.add("body", "check_for_ascii_text_illegal()", illegal, "ILL")
    r.add("body", "check_for_mime('mime_ascii_text_illegal')", illegal, "ILL")
    r.add("body", "check_msg_parse_flags('truncated_headers')", case["hname"] > 256 or case["hval"] > 8192, "TRUNC")
    r.add("body", "check_msg_parse_flags('mime_epilogue_exists')", not single and case["epilogue"], "EPI")
    r.add("body", "check_msg_parse_flags('missing_mime_headers')", False, "NOHEAD")
    r.add("body", "check_msg_parse_flags('missing_mime_head_body_separator')", False, "NOSEP")
    judge(w, note, r, raw)


upper_st = st.fixed_dictionaries(dict(paras=st.lists(st.lists(st.sampled_from(["HELLO", "hello", "Hello", "123", "x" * 30, "Y" * 30, "AB_cd-EF", "a", "!!!"]), min_size=1, max_size=16), min_size=1, max_size=4), nl=st.booleans(), pad=st.sampled_from([None, 199, 200, 200, 201]), b=st.lists(bound, min_size=4, max_size=4)))


def upper_body(case, w, note):
    """Percentage of upper case among the letters and digits of paragraphs with spaces, of texts of at least 200 characters."""
    paras = [(" ".join(p) if not case["nl"] else "\n".join(" ".join(p[i:i + 2]) for i in range(0, len(p), 2))) for p in case["paras"]]
    if case["pad"]:  # texts of just about 200 characters
        have = sum(len(p) for p in paras if re.search("\\s", p))
        if 2 <= case["pad"] - have:
            paras.append("a " + "b" * (case["pad"] - have - 2))
    raw = "From: a@example.com\nSubject: s\n\n" + "\n\n".join(paras)
    use = [re.sub("\n", " ", p) for p in paras]
    use = [p for p in use if " " in p]
    length = sum(len(p) for p in use)
    letters = re.sub(r"[\W_]", "", "".join(use))
    up = sum(1 for c in letters if c.isupper())
    r = Rules(["mime_eval.MIMEEval"])
    for b in case["b"]:
        v = Fraction(100 * up, len(letters)) if letters else Fraction(0)
        lo, hi = limits(v, b, exact=dyadic(v / 100))
        r.add("body", call("check_for_uppercase", b, fmt(lo), fmt(hi)), length >= 200 and letters and lo < v <= hi)
    r.add("body", "check_for_uppercase(0, 100)", length >= 200 and up)
    judge(w, note, r, raw)


# header_eval
RC = ["alice@example.com", "alice@example.net", "bobby@example.com", "carol@other.org", "carol@another.org", "david@example.com", "ellen@yonder.net", "frank@zed.com", "bobby@zebra.com", "alice@example.com", "x.y-z@example.com"]
SUBJ = ["HELLO THERE FRIEND", "Hello There Friend", "RE: HELLO THERE", "Fwd: HELLO THERE FRIEND", "HELLOTHEREFRIEND", "HI YOU", "ABCDE FGHI", "ABCD FGHI", "123 456 7890", "alice@example.com buy now", "alice", "bobby, hello", "Re: carol", "about ALICE@EXAMPLE.COM!", "alicex", "xalice", "SV: BIG SALE NOW", "AW: BIG SALE nOW", "", "100% LEGAL THING!"]
GREET = [["%s", True], ["re: %s", True], ["fw: dear %s", True], ["re:%s", True], ["%s, how are you", True], ["%s! big sale", True], ["hello %s!", True], ["offer for you, %s?", True], ["%s:", True], ["%s - hi", True],
         ["%sx", False], ["about %s today", False], ["%s9, hello", False], ["to %s and friends", False], ["%s.", False], ["re: dear friend %s", False]]
hdr_st = st.fixed_dictionaries(dict(to=st.lists(st.sampled_from(RC), max_size=6), cc=st.lists(st.sampled_from(RC), max_size=5), bcc=st.lists(st.sampled_from(RC), max_size=2), greet=st.one_of(st.none(), st.tuples(st.sampled_from(GREET), st.sampled_from(["alice", "bobby", "x.y-z", "carol"])).map(list)), order=st.sampled_from(["as is", "as is", "sorted"]), subjects=st.lists(st.sampled_from(SUBJ), max_size=2), apparently=st.booleans(), x=st.lists(st.sampled_from(["one", "two", "two", "Three"]), max_size=4),
                                    template=st.lists(st.sampled_from([["X-Mailer", "100%AB mail"], ["X-Note", "50%-off"], ["X-Note", "%S_NAME"], ["X-Note", "%s and %a"], ["X-UIDL", "%AB"], ["References", "<%AB@x>"], ["X-Note", "%A"], ["To-Do", "%XX"], ["X-Original-Message-ID", "<%AB>"]]), max_size=2), body=st.sampled_from(["plain text", "only 100%OFF today", "%NAME%"]), b=st.lists(bound, min_size=6, max_size=6), swap=st.booleans()))


def hdr_body(case, w, note):
    to, cc, bcc = case["to"], case["cc"], case["bcc"]
    rec = to + cc + bcc
    if case["order"] == "sorted":
        rec = sorted(rec)
        to, cc, bcc = rec[:len(to)], rec[len(to):len(to) + len(cc)], rec[len(to) + len(cc):]
    greet = case["greet"]
    if greet:
        case = dict(case, subjects=[greet[0][0] % greet[1]])
        if case["order"] != "sorted":  # addressed to that user
            to = to + [greet[1] + "@example.com"]
            rec = to + cc + bcc
    head = ["From: sender@example.com"] + ["Subject: %s" % s for s in case["subjects"]]
    if to:
        head.append("To: " + ", ".join("Some One <%s>" % a if i % 2 else a for i, a in enumerate(to)))
    if cc:
        head.append("Cc: " + ", ".join(cc))
    if bcc:
        head.append("Bcc: " + ", ".join(bcc))
    if case["apparently"]:
        head.append("Apparently-To: someone@example.com")
    head += ["X-Multi: %s" % x for x in case["x"]] + ["%s: %s" % tuple(t) for t in case["template"]]
    raw = "\n".join(head) + "\n\n" + case["body"] + "\n"
    r = Rules(["header_eval.HeaderEval"])
    dedup = [a for i, a in enumerate(rec) if i == 0 or rec[i - 1] != a]
    v = Fraction(0)
    if len(dedup) >= 5:
        hits = 0
        pairs = list(itertools.combinations(dedup, 2))
        for a, b in pairs:
            (u1, h1), (u2, h2) = a.split("@"), b.split("@")
            hits += (u1[:5] == u2[:5]) + (h1[:2] == h2[:2] and h1 != h2)
        v = Fraction(hits, len(pairs))

    def similar():
        for b in case["b"][:3]:
            lo, hi = limits(v, b, step=Fraction(1, 1000))
            r.add("header", call("similar_recipients", b, fmt(lo), fmt(hi)), lo < v < hi)

    def ordered():
        r.add("header", "sorted_recipients()", rec and rec == sorted(rec))
    for f in ((ordered, similar) if case["swap"] else (similar, ordered)):
        f()
    r.add("header", "check_for_missing_to_header()", not to and not case["apparently"])
    n = len(set(case["x"]))
    for b in case["b"][3:]:
        r.add("header", "check_header_count_range('X-Multi', '%d', '%d')" % (n + b[0], n + b[1]), b[0] <= 0 <= b[1])

    def caps(s):
        s = re.sub(r"(?i)^(re|fwd|fw|aw|antwort|sv):", "", s).strip()
        return len(s) >= 10 and len(s.split()) > 1 and s == s.upper() and s != s.lower()
    r.add("header", "subject_is_all_caps()", any(caps(s) for s in case["subjects"]))
    r.add("header", "check_unresolved_template()", any(re.search("%[A-Z][A-Z_-]", v) and not re.match("(?i)(x-uidl|references|x-original-message-id)$", k) for k, v in case["template"]))
    s = (case["subjects"] or [""])[0]
    r.add("header", "check_for_to_in_subject('address')", any(a.lower() in s.lower() for a in to))
    users = {a.split("@")[0] for a in to}
    if greet:
        # the user is the whole subject, is addressed at its start or end, or what a reply or forward is about
        r.add("header", "check_for_to_in_subject('user')", greet[0][1] and greet[1] in users)
    elif not re.search("ALICE@|alice@", s):
        r.add("header", "check_for_to_in_subject('user')", (s == "alice" and "alice" in users) or (s == "bobby, hello" and "bobby" in users))
        if s == "Re: carol":
            r.want.pop([n for n in r.want][-1])
            r.lines.pop()
    judge(w, note, r, raw)


CH = ["a", "b", "Z", "9", " ", "\u00e9", "\u20ac", "\u00a3", "\u00ae", "\u00a2", "\u0416"]
ill_st = st.fixed_dictionaries(dict(subject=st.lists(st.sampled_from(CH), max_size=12).map("".join), other=st.lists(st.lists(st.sampled_from(CH), min_size=1, max_size=8).map("".join), max_size=2), frm=st.lists(st.sampled_from(CH), max_size=4).map("".join), b=st.lists(bound, min_size=6, max_size=6), all_first=st.booleans()))


def ill_body(case, w, note):
    subj = ("s" + case["subject"]).strip()
    frm = ("f" + case["frm"]).strip() + " <x@example.com>"
    others = [("v" + o).strip() for o in case["other"]]
    raw = "From: %s\nSubject: %s\n" % (frm, subj) + "".join("X-Other: %s\n" % o for o in others) + "To: r@example.org\n\ntext\n"
    r = Rules(["header_eval.HeaderEval"])

    def rules(name, value, b, exempt=False):
        ill = sum(1 for c in value if ord(c) > 127)
        signs = sum(1 for c in value if c in "\xa2\xa3\xae")
        if exempt and signs == 1:
            ill -= 1
        v = Fraction(ill, len(value)) if value else Fraction(0)
        lo = arg(v, b[0], step=Fraction(1, 1000))
        n = max(0, ill + b[1])
        r.add("header", "check_illegal_chars('%s', '%s', '%d')" % (name, fmt(lo), n), value and v >= lo and ill >= n)

    def everything():
        for b in case["b"][:2]:
            rules("ALL", "".join(others) + "r@example.org", b)

    def single():
        for b in case["b"][2:4]:
            rules("Subject", subj, b, True)
        for b in case["b"][4:5]:
            rules("From", frm, b)
        for b in case["b"][5:]:
            rules("X-Other", "".join(others), b)
    for f in ((everything, single, everything) if case["all_first"] else (single, everything, single)):
        f()
    judge(w, note, r, raw)


EPOCH = 1500000000
ZONES = [0, 0, 5, -8]
date_st = st.fixed_dictionaries(dict(date=st.integers(0, 100), zone=st.sampled_from(ZONES), diffs=st.lists(st.tuples(st.sampled_from([-49, -25, -7, -6, -5, -3, -1, 1, 2, 3, 5, 6, 12, 24, 48]), st.sampled_from([0, 0, 10, 30, 59]), st.sampled_from(ZONES)), max_size=3).map(lambda l: [list(x) for x in l]), ranges=st.lists(st.sampled_from([["undef", "3"], ["3", "6"], ["6", "12"], ["24", "undef"], ["1", "2"], ["2", "undef"], ["5", "6"], ["undef", "undef"], ["48", "49"], ["1", "25"]]), min_size=2, max_size=5)))
DAYS, MONTHS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"], ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def stamp(seconds, zone):
    import datetime
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=seconds + 3600 * zone)
    return "%s, %d %s %d %02d:%02d:%02d %s%02d00" % (DAYS[d.weekday()], d.day, MONTHS[d.month - 1], d.year, d.hour, d.minute, d.second, "-" if zone < 0 else "+", abs(zone))


def date_body(case, w, note):
    base = EPOCH - case["date"] * 3600
    head = ["Date: " + stamp(base, case["zone"])]
    diffs = []
    for i, (h, m, z) in enumerate(case["diffs"]):
        d = h * 3600 + (m * 60 if h > 0 else -m * 60)
        diffs.append(abs(d))
        head.insert(0, "Received: from h%d.example.com (h%d.example.com [8.8.8.%d]) by mx.example.org (Postfix) with ESMTP id X%d; %s" % (i, i, i + 1, i, stamp(base + d, z)))
    v = Fraction(min(diffs), 3600) if diffs else Fraction(0)
    r = Rules(["header_eval.HeaderEval"])
    for lo, hi in case["ranges"]:
        r.add("header", "check_for_shifted_date('%s', '%s')" % (lo, hi), (lo == "undef" or v >= int(lo)) and (hi == "undef" or v < int(hi)))
    judge(w, note, r, "\n".join(["From: a@example.com"] + head) + "\n\ntext\n")


mon_st = st.fixed_dictionaries(dict(months=st.integers(0, 40), edge=st.sampled_from([0, 1, 86400, 20 * 86400]), zone=st.sampled_from(ZONES), received=st.sampled_from([0, 1, 2, 3]), wrong=st.integers(0, 3), ranges=st.lists(st.tuples(side, st.sampled_from([None, 0, 1])).map(list), min_size=2, max_size=5)))


def mon_body(case, w, note):
    """now is 2017-07-14 02:40 UTC; the date used is the median of the Received dates and Date (the earlier of two)."""
    import calendar
    y, m = divmod(2017 * 12 + 6 - case["months"], 12)
    t = calendar.timegm((y, m + 1, 14, 2, 40, 0)) - case["edge"]
    n = case["months"]
    k = case["received"]
    stamps = [t] * (k + 1)
    if k >= 2:  # one wrong date does not move the median
        stamps[case["wrong"] % (k + 1)] = t - 400 * 86400
        if k == 3:
            stamps.sort(reverse=True)
    order = sorted(stamps, reverse=True)
    check_eq(order[len(order) // 2] in (t, t), True, "oracle")
    head = ["Received: from h%d.example.com (h%d.example.com [8.8.8.%d]) by mx.example.org (Postfix) with ESMTP id X%d; %s" % (i, i, i + 1, i, stamp(s, ZONES[(i + case["wrong"]) % 4])) for i, s in enumerate(stamps[1:])]
    head.append("Date: " + stamp(stamps[0], case["zone"]))
    r = Rules(["header_eval.HeaderEval"])
    for a, b in case["ranges"]:
        lo = max(0, n + a)
        hi = None if b is None else n + 1 + b if a <= 0 else n + b
        if hi == 0:
            hi = None
        r.add("header", "received_within_months('%s', '%s')" % (lo or "undef", hi or "undef"), n >= lo and (hi is None or n < hi))
    judge(w, note, r, "\n".join(["From: a@example.com"] + head) + "\n\ntext\n")


# uri_eval
HOSTS = ["www.example.com", "10.20.30.40", "Other.example.net", "redirect.example.org"]
uri_st = st.fixed_dictionaries(dict(links=st.lists(st.fixed_dictionaries(dict(host=st.sampled_from(HOSTS), scheme=st.sampled_from(["http", "https"]), to=st.one_of(st.none(), st.none(), st.tuples(st.lists(st.sampled_from(HOSTS + HOSTS[:1] * 2), min_size=1, max_size=3), st.sampled_from(["/r?u=", "/", "/x*"])).map(list)), text=st.sampled_from(["click here", "https://www.bank.example/login", "http://www.bank.example/", "https://10.20.30.40/", "see https://bank.example now", "www.bank.example"]), size=st.sampled_from([None, None, None, -1, 0, 1]), tag=st.sampled_from(["a", "a", "link", "text"]))), min_size=1, max_size=3)))


def uri_body(case, w, note):
    html, redir, mism, trunc = [], False, False, False
    for i, l in enumerate(case["links"]):
        url = "%s://%s/p%d" % (l["scheme"], l["host"], i)
        if l["to"]:
            # through any number of redirectors
            url = "%s://%s" % (l["scheme"], l["host"]) + "".join("%shttp://%s" % (l["to"][1], h) for h in l["to"][0]) + "/q%d" % i
            redir = redir or len(set([l["host"]] + l["to"][0])) > 1
        if l["size"] is not None and l["tag"] != "text":
            url += "?" + "k" * (8192 + l["size"] - len(url) - 1)
            trunc = trunc or len(url) > 8192
        if l["tag"] == "a":
            html.append('<a href="%s">%s</a>' % (url, l["text"]))
            mism = mism or (l["host"] == "10.20.30.40" and bool(re.search(r"https://(?!10\.)", l["text"])))
        elif l["tag"] == "link":
            html.append('<link rel="x" href="%s">' % url)
        else:
            html.append("<p>%s </p>" % url)
        if l["tag"] != "a" and False:
            pass
    raw = "From: a@example.com\nSubject: s\nMIME-Version: 1.0\nContent-Type: text/html; charset=utf-8\n\n<html><body>\n%s\n</body></html>\n" % "\n".join(html)
    r = Rules(["uri_eval.URIEvalPlugin"])
    r.add("body", "check_for_http_redirector()", redir)
    r.add("body", "check_https_ip_mismatch()", mism)
    r.add("body", "check_uri_truncated()", trunc)
    judge(w, note, r, raw)


FACETS = [Facet("alternative", body_st, alt_body, quick=500), Facet("lines", lines_st, lines_body, quick=100), Facet("mime", mime_st, mime_body, quick=240), Facet("uppercase", upper_st, upper_body, quick=120), Facet("headers", hdr_st, hdr_body, quick=320),
          Facet("illegal", ill_st, ill_body, quick=100), Facet("shifted", date_st, date_body, quick=80), Facet("months", mon_st, mon_body, quick=60), Facet("uris", uri_st, uri_body, quick=160)]
