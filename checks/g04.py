"""G04: uri_detail rules match iff one URI satisfies every listed condition."""
import re
from urllib.parse import unquote, urlparse
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import gen

PROPERTY = "G04"
RULE = ("cases are messages with 1-6 links (anchors with nested markup and several texts, link elements, plain URLs, repeated targets, percent escapes) in HTML or plain text parts, and 1-5 uri_detail rules with 1-3 conditions on raw, cleaned, domain, scheme and text (both operators), with score, describe, priority and tflags lines; results, scores and descriptions are compared with a model; "
        "non-trivial = some rule with several conditions does not match although each of its conditions holds for some URI, or a rule matches through one URI only while another rule does not")
ASSUMPTIONS = ["domain is the network location as written", "a condition on text is about one anchor's text; a link repeated with different texts satisfies it with any of them", "rules without a recognised condition are not generated"]
HOSTS = ["good.example.com", "bad.example.net", "good.example.net", "GOOD.example.org", "1.2.3.4"]
PATHS = ["/", "/a%2fb", "/p?q=1", "", "/good", "/%67ood", "/x/y"]
SCHEMES = ["http", "https", "ftp"]
TEXTS = ["click here", "good offer", "http://good.example.com/", "Bad", "", "here"]
url = st.tuples(st.sampled_from(SCHEMES), st.sampled_from(HOSTS), st.sampled_from(PATHS)).map(lambda t: "%s://%s%s" % t)
link = st.fixed_dictionaries(dict(url=url, text=st.sampled_from(TEXTS), kind=st.sampled_from(["a", "a", "a", "link", "plain"]), nest=st.sampled_from(["", "", "b", "font"]), more=st.sampled_from(["", "", " now", "good"]), quote=st.sampled_from(['"', "'"]), upper=st.booleans(), attrs=st.booleans()))
REGEX = {"raw": ["good", "%2f", "example\\.net", "^http:", "ood$", "q=1", "GOOD", "\\/x\\/"], "cleaned": ["\\/a\\/b", "good$", "%", "^https", "example"], "domain": ["^good\\.", "example\\.com$", "net", "^1\\.2", "GOOD", "^$"], "scheme": ["^https?$", "^http$", "ftp", "s"], "text": ["click", "^good", "http", "now$", "Bad", "here", "\\S"]}
cond = st.sampled_from(sorted(REGEX)).flatmap(lambda k: st.tuples(st.just(k), st.sampled_from(["=~", "=~", "!~"]), st.sampled_from(REGEX[k]), st.sampled_from(["", "", "i"]))).map(list)
rule = st.fixed_dictionaries(dict(conds=st.lists(cond, min_size=1, max_size=3), score=st.one_of(st.none(), gen.quarter()), desc=st.sampled_from([None, "some words here"]), prio=st.sampled_from([None, 5, -5]), flags=st.sampled_from([None, "nice", "net"]), spaces=st.sampled_from([" ", "  ", "\t"])))
case_st = st.fixed_dictionaries(dict(links=st.lists(link, min_size=1, max_size=6), rules=st.lists(rule, min_size=1, max_size=5), plainpart=st.booleans(), before=st.booleans()))


def links_of(case):
    """{url: {"a"|"link"|"parsed": set of texts}}"""
    res, plain, markup = {}, [], []
    for l in case["links"]:
        if l["kind"] == "plain":
            plain.append(l["url"])
            continue
        d = res.setdefault(l["url"], {})
        texts = d.setdefault(l["kind"], set())
        if l["kind"] == "a":
            t = l["text"] + l["more"]
            if t:
                texts.add(t)
    return res, plain


def render(case):
    html, plain = [], []
    for l in case["links"]:
        if l["kind"] == "plain":
            (plain if case["plainpart"] else html).append("go %s now<br>" % l["url"] if not case["plainpart"] else "go %s now" % l["url"])
        elif l["kind"] == "link":
            html.append("<link rel=x href=%s%s%s></link>" % (l["quote"], l["url"], l["quote"]))
        else:
            inner = l["text"]
            if l["nest"] and inner:
                inner = "<%s>%s</%s>" % (l["nest"], inner, l["nest"])
            tag, href = ("A", "HREF") if l["upper"] else ("a", "href")
            html.append("<%s%s %s=%s%s%s>%s%s</%s> text" % (tag, " class=x target='_blank'" if l["attrs"] else "", href, l["quote"], l["url"], l["quote"], inner, l["more"], tag))
    parts = []
    if html or not plain:
        parts.append(("html", "<html><body>\n" + "\n".join(html) + "\n</body></html>\n"))
    if plain:
        parts.append(("plain", "\n".join(plain) + "\n"))
    head = "From: a@b.example\nSubject: some links\nMIME-Version: 1.0\n"
    if len(parts) == 1:
        return head + "Content-Type: text/%s; charset=us-ascii\n\n%s" % parts[0]
    return head + 'Content-Type: multipart/mixed; boundary="bb"\n\n' + "".join("--bb\nContent-Type: text/%s; charset=us-ascii\n\n%s" % p for p in parts) + "--bb--\n"


def holds(c, u, kind, texts):
    key, op, rx, flag = c
    rx = re.compile(rx, re.I if flag else 0)
    if key == "text":
        if kind == "parsed":
            return False
        return any((rx.search(t) is not None) == (op == "=~") for t in texts)
    val = {"raw": u, "cleaned": unquote(u), "domain": urlparse(u).netloc, "scheme": urlparse(u).scheme}[key]
    return (rx.search(val) is not None) == (op == "=~")


def body(case, w, note):
    lines, rest = [], []
    for i, r in enumerate(case["rules"]):
        n = "UD%d" % i
        lines.append("uri_detail %s %s" % (n, r["spaces"].join("%s%s%s%s/%s/%s" % (k, r["spaces"], op, r["spaces"], rx, f) for k, op, rx, f in r["conds"])))
        for key, v in (("score", r["score"]), ("describe", r["desc"]), ("priority", r["prio"]), ("tflags", r["flags"])):
            if v is not None:
                rest.append("%s %s %s" % (key, n, gen.fmt(v) if key == "score" else v))
    lines = ["loadplugin oa.plugins.uri_detail.URIDetailPlugin"] + (rest + lines if case["before"] else lines + rest) + ["report _SUMMARY_"]
    raw = render(case)
    res = w.call("core.scan", dict(files=[["a.cf", "\n".join(lines) + "\n"]], msgs=[raw], want=["report", "evaluated"]))
    check(res["load_exc"] is None, "the configuration failed to load", lines=lines, exc=res["load_exc"])
    out = res["results"][0]
    check("exc" not in out, "scanning raised", lines=lines, raw=raw, out=out)
    links, plain = links_of(case)
    items = [(u, k, t) for u, d in links.items() for k, t in d.items()]
    items += [(u, "parsed", ()) for u in plain if u not in links]
    # an absolute URL inside an anchor's text is a URL of the message too
    for l in case["links"]:
        if l["kind"] == "a" and l["text"].startswith("http") and l["text"] not in links and not l["more"]:
            items.append((l["text"], "parsed", ()))
        elif l["kind"] == "a" and l["text"].startswith("http") and l["more"]:
            # the raw part shows the URL up to the next tag or blank
            u = l["text"] if l["nest"] or l["more"].startswith(" ") else l["text"] + l["more"]
            if u not in links:
                items.append((u, "parsed", ()))
    score, hits, across = 0.0, [], False
    for i, r in enumerate(case["rules"]):
        per = [[holds(c, *it) for it in items] for c in r["conds"]]
        want = any(all(col) for col in zip(*per))
        if r["score"] != 0 and want:
            hits.append("UD%d" % i)
            score += (-1.0 if r["flags"] == "nice" else 1.0) if r["score"] is None else r["score"]
        if not want and all(any(p) for p in per) and r["score"] != 0:
            across = True
            note.event("conditions met by different links")
    order = sorted((i for i, r in enumerate(case["rules"]) if r["score"] != 0), key=lambda i: -(case["rules"][i]["prio"] or 0))
    info = dict(lines=lines, raw=raw)
    check_eq(sorted(out["tests"]), sorted(hits), "matched rules", **info)
    check_eq(out["score"], score, "score", **info)
    check_eq(sorted(out["evaluated"]), ["UD%d" % i for i in sorted(order)], "evaluated rules", **info)
    prios = [case["rules"][int(n[2:])]["prio"] or 0 for n in out["evaluated"]]
    check_eq(prios, sorted(prios, reverse=True), "order of the priorities", **info)
    rep = [l for l in out["report"].replace("\r", "").split("\n") if l.strip()]
    for i, r in enumerate(case["rules"]):
        if "UD%d" % i in hits and r["desc"]:
            check(any("UD%d " % i in l and r["desc"] in l for l in rep), "the description is missing in the report", report=out["report"], **info)
    note.nontrivial(across or (0 < len(hits) < len(order) and len(items) > 1))


FACETS = [Facet("links", case_st, body, quick=2000)]
