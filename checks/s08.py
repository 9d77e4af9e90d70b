"""S08: Perl-style patterns."""
import re
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import gen

PROPERTY = "S08"
RULE = ("cases are 6 patterns generated from an AST of the shared regex syntax (literals incl. every delimiter, classes, groups, alternation, quantifiers, anchors, look-ahead, inline groups, \\b?), "
        "each rendered with a random delimiter, m prefix, flags and escaping, and run against texts sampled from the patterns themselves and mutations of them; non-trivial = at least two rules match, one does not, "
        "and a non-/ delimiter or a flag is used. Garbage facet: arbitrary strings as patterns next to good rules; non-trivial = the garbage is rejected")
ASSUMPTIONS = ["CPython's re is the reference for the syntax shared by Perl and Python", "content of (?i:..) and (?>..) groups is generated so that local flags and atomicity make no difference",
               "patterns contain no # (comment character of the file format)"]

DELIMS = {"/": "/", "{": "}", "%": "%", "<": ">", "'": "'", "~": "~", ",": ",", "!": "!", ";": ";"}
PUNCT = "/{}%<>'~,!;=@:-_&\""
SPECIAL = ".^$*+?{}[]\\|()"
chars = st.sampled_from(list("abcABC019 ") + list(PUNCT) + list(".+*()[]|$^?\\"))
atom0 = st.one_of(
    st.tuples(st.just("lit"), chars), st.tuples(st.just("lit"), chars), st.tuples(st.just("lit"), st.sampled_from("abcABC")),
    st.tuples(st.just("esc"), st.sampled_from(["\\d", "\\w", "\\s", "\\D", "\\W", "\\S", "."])),
    st.tuples(st.just("cls"), st.booleans(), st.lists(st.sampled_from(list("abAB12/{}%<>'~,!; ") + ["a-c", "0-9"]), min_size=1, max_size=3, unique=True)),
    st.tuples(st.just("anchor"), st.sampled_from(["^", "$", "\\b", "\\b?", "\\B"])),
    st.tuples(st.just("noflag"), st.sampled_from(["i", "-i", "s-i", "^", "i-x", ">"]), st.text("0123 _=:".replace(" ", ""), min_size=1, max_size=3))).map(list)


def ext(s):
    seq = st.lists(s, min_size=1, max_size=4)
    return st.one_of(
        st.tuples(st.just("rep"), s, st.sampled_from([(0, 1), (0, None), (1, None), (2, 2), (1, 2), (0, 3), (2, None)]).map(list), st.booleans()).map(list),
        st.tuples(st.just("grp"), st.sampled_from(["(", "(?:"]), st.lists(seq, min_size=1, max_size=3)).map(list),
        st.tuples(st.just("look"), st.sampled_from(["(?=", "(?!"]), seq).map(list))


regex = st.lists(st.recursive(atom0, ext, max_leaves=6), min_size=1, max_size=5)
pat_st = st.fixed_dictionaries(dict(re=regex, delim=st.sampled_from(["/", "/", "/", "/m"] + sorted(DELIMS)), flags=st.one_of(st.just(""), st.lists(st.sampled_from("ismx"), unique=True, max_size=4).map("".join)),
                                    esc=st.integers(0, 3), neg=st.booleans(), pick=st.lists(st.integers(0, 7), min_size=6, max_size=6), mut=st.integers(0, 5)))
case_st = st.fixed_dictionaries(dict(pats=st.lists(pat_st, min_size=6, max_size=6), extra=st.text("abcAB01 /{}%<>'~,!;\n", max_size=12)))


def render(seq, d, esc, x, perl):
    """d: set of delimiter characters to escape."""
    out = []
    for n in seq:
        out.append(node(n, d, esc, x, perl))
    return (" " if x else "").join(out)


def ch(c, d, esc, x, perl):
    if c in SPECIAL or (perl and c in d) or (x and c in " #"):
        return "\\" + c
    if esc == 1 and not c.isalnum() and c not in "_ <>" + "'\"":
        return "\\" + c
    return c


def node(n, d, esc, x, perl):
    k = n[0]
    if k == "lit":
        return ch(n[1], d, esc, x, perl)
    if k == "esc":
        return n[1]
    if k == "cls":
        return "[" + ("^" if n[1] else "") + "".join(("\\" if perl and c in d else "") + c for c in n[2]) + "]"
    if k == "anchor":
        return n[1] if perl or n[1] != "\\b?" else "(?:\\b)?"
    if k == "noflag":
        if perl and n[1] not in ("i", "-i") and set(n[1]) & d:
            return "(?:" + n[2] + ")"
        return "(?" + (n[1] if n[1] == ">" else n[1] + ":") + n[2].replace("=", "=") + ")" if perl else "(?:" + n[2] + ")"
    if k == "rep":
        a = node(n[1], d, esc, x, perl)
        if n[1][0] in ("rep", "anchor", "look"):
            a = "(?:" + a + ")"
        lo, hi = quant(n)
        if (lo, hi) == (1, 1):
            return a
        q = {(0, 1): "?", (0, None): "*", (1, None): "+"}.get((lo, hi))
        if q is None:
            q = "{%d}" % lo if lo == hi else "{%d,%s}" % (lo, "" if hi is None else hi)
        return a + q + ("?" if n[3] else "")
    if k == "grp":
        return n[1] + "|".join(render(s, d, esc, x, perl) for s in n[2]) + ")"
    if k == "look":
        return n[1] + render(n[2], d, esc, x, perl) + ")"


def uses(seq, pred):
    return any(pred(n) or (n[0] == "rep" and uses([n[1]], pred)) or (n[0] == "grp" and any(uses(s, pred) for s in n[2])) or (n[0] == "look" and uses(n[2], pred)) for n in seq)


def quant(n):
    """No repetition of repetitions (exponential in any backtracking engine) or of empty matches (PyPy's re loops on some)."""
    return [1, 1] if nullable(n[1]) or uses([n[1]], lambda m: m[0] == "rep") else n[2]


def nullable(n):
    k = n[0]
    if k == "grp":
        return any(all(nullable(x) for x in s) for s in n[2])
    if k == "rep":
        return n[2][0] == 0 or nullable(n[1])
    return k in ("anchor", "look")


def sample(seq, pick, i=None):
    i = i if i is not None else [0]

    def p():
        i[0] += 1
        return pick[i[0] % len(pick)]
    out = ""
    for n in seq:
        k = n[0]
        if k == "lit":
            out += n[1]
        elif k == "esc":
            out += {"\\d": "1", "\\w": "b", "\\s": " ", "\\D": "c", "\\W": "-", "\\S": "A", ".": "%"}[n[1]]
        elif k == "cls":
            c = n[2][p() % len(n[2])]
            out += c[0] if not n[1] else "z"
        elif k == "noflag":
            out += n[2]
        elif k == "rep":
            lo, hi = quant(n)
            m = lo + p() % 2 if hi is None or lo < hi else lo
            out += "".join(sample([n[1]], pick, i) for _ in range(m))
        elif k == "grp":
            out += sample(n[2][p() % len(n[2])], pick, i)
    return out


def body(case, w, note):
    lines, oracles = [], []
    texts = []
    kinds = set()
    for j, p in enumerate(case["pats"]):
        dl = p["delim"][0]
        close = DELIMS[dl]
        if "," == dl and uses(p["re"], lambda n: n[0] == "rep" and n[2][0] != n[2][1] and n[2] not in ([0, 1], [0, None], [1, None])):
            dl = close = "/"
        if dl == "!" and uses(p["re"], lambda n: n[0] == "look"):
            dl = close = "/"
        if dl == "<" and uses(p["re"], lambda n: n[0] == "noflag" and n[1] == ">"):
            dl = close = "/"
        x = "x" in p["flags"]
        d = {dl, close}
        pat = render(p["re"], d, p["esc"], x, True)
        ref = render(p["re"], d, p["esc"], x, False)
        fl = 0
        for f in p["flags"]:
            fl |= {"i": re.I, "s": re.S, "m": re.M, "x": re.X}[f]
        try:
            rx = re.compile(ref, fl)
        except (re.error, OverflowError):
            continue
        prefix = "m" if dl != "/" or p["delim"].endswith("m") else ""
        written = "%s%s%s%s%s" % (prefix, dl, pat, close, p["flags"])
        if "#" in written:
            continue
        neg = p["neg"]
        if neg:
            lines.append("header R%d X-Text !~ %s" % (j, written))
        else:
            lines.append("rawbody R%d %s" % (j, written))
        oracles.append((j, rx, neg))
        if dl != "/" or p["flags"]:
            kinds.add("x")
        t = sample(p["re"], p["pick"])
        if p["mut"] == 1:
            t = t.swapcase()
        elif p["mut"] == 2:
            t = t[1:]
        elif p["mut"] == 3:
            t = "a " + t + " b"
        elif p["mut"] == 4:
            t = "b\n" + t + "\na"
        texts.append(t)
    texts.append(case["extra"])
    msgs = []
    seen = []
    for t in texts:
        hv = t.replace("\n", " ").strip()
        msgs.append("From: a@example.com\nX-Text: %s\n\n%s" % (hv, t))
        seen.append((t, hv))
    res = w.call("core.scan", dict(files=[["a.cf", "\n".join(lines) + "\n"]], msgs=msgs, want=["evaluated"]))
    check(res["load_exc"] is None, "the configuration failed to load", exc=res["load_exc"], lines=lines)
    nm = nn = 0
    for (t, hv), out in zip(seen, res["results"]):
        check("exc" not in out, "scanning raised", out=out)
        for j, rx, neg in oracles:
            name = "R%d" % j
            check(name in out["evaluated"], "a valid pattern was rejected", lines=[l for l in lines if " %s " % name in l])
            e = (not rx.search(hv)) if neg else bool(rx.search(t))
            check_eq(name in out["tests"], e, "match of the pattern", line=[l for l in lines if " %s " % name in l], text=hv if neg else t, reference=rx.pattern)
            nm += e
            nn += not e
    note.nontrivial(nm >= 2 and nn and kinds)


garb = st.fixed_dictionaries(dict(pat=st.one_of(st.text("m/{}<>'~,!;%()[]?*+\\abgs.^$ i{1,9}(?P<=:-", max_size=14),
                                                st.sampled_from(["m", "mgs", "//", "/", "///", "m{}", "m{", "m}", "/(/", "/[/", "/a**/", "/(?P<a>/", "/a{99999999999999}/", "/\\/", "/(?<=a*)b/", "abc", "m#a#", "/a/zzz", "qr/a/", "m/" + "(" * 60 + ")" * 60 + "/", "/(?z)/", "/\\p{L}/", "/(?i)a(?s)/", "/(?R)/", "/(a)\\2/"])),
                                  typ=st.sampled_from(["body", "rawbody", "full", "uri", "header", "headernot", "mimeheader"])))


def garbage_body(case, w, note):
    pre = {"header": "header BAD X-Probe =~ ", "headernot": "header BAD X-Probe !~ ", "mimeheader": "mimeheader BAD X-Probe =~ "}.get(case["typ"], case["typ"] + " BAD ")
    conf = "body GOOD /tokalpha/\nscore GOOD 1.5\n%s%s\nscore BAD 7\nheader GOOD2 X-Probe =~ /tokalpha/\nmeta GOOD3 GOOD && GOOD2\n" % (pre, case["pat"])
    res = w.call("core.scan", dict(files=[["a.cf", conf]], msgs=[gen.probe_message(["tokalpha"])], want=["evaluated"]))
    check(res["load_exc"] is None, "a bad pattern broke the configuration", conf=conf, exc=res["load_exc"])
    out = res["results"][0]
    check("exc" not in out, "scanning raised", conf=conf, out=out)
    check_eq([t for t in out["tests"] if t != "BAD"], ["GOOD", "GOOD2", "GOOD3"], "rules next to a bad pattern", conf=conf)
    p = case["pat"].strip()
    if p[:1] not in list(DELIMS) and p[:1] not in ("m", "g", "s"):
        check("BAD" not in out["evaluated"], "a pattern without a supported delimiter is rejected", conf=conf)
    if p[:1] == "/":
        n = len(re.findall(r"(?<!\\)(?:\\\\)*/", p))
        if p.count("/") == 1:
            check("BAD" not in out["evaluated"], "an unterminated pattern is rejected", conf=conf)
        m = re.match(r"^/([^/\\?]+)/[ismx]*$", p)
        if m:
            try:
                re.compile(m.group(1))
                ok = True
            except (re.error, OverflowError):
                ok = False
            if not re.search(r"[*+}]\+", m.group(1)):  # possessive quantifiers are newer than the interpreter
                check_eq("BAD" in out["evaluated"], ok, "acceptance of the pattern", conf=conf)
    note.nontrivial("BAD" not in out["evaluated"])
    # paranoid mode refuses what the default mode drops
    res2 = w.call("core.scan", dict(files=[["a.cf", conf]], msgs=[], paranoid=True))
    check_eq(res2["load_exc"] is None, "BAD" in out["evaluated"], "paranoid acceptance", conf=conf, exc=res2["load_exc"])
    if res2["load_exc"] is not None:
        check(res2["load_exc_parsing"], "paranoid mode reports a parsing error", conf=conf, exc=res2["load_exc"])


FACETS = [Facet("shared", case_st, body, quick=2000), Facet("garbage", garb, garbage_body, quick=1000)]
