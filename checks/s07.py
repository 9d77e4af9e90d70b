"""S07: mimeheader rules."""
import re
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import gen, mime
from checks.s06 import esc, recase, case_of

PROPERTY = "S07"
RULE = ("cases are MIME trees (multiparts, attached messages) whose parts carry generated (repeated, encoded, case-varied) headers, and 10 mimeheader rules over present and absent names, "
        "raw or decoded, with both operators, plus generated score/priority/tflags; non-trivial = at least two parts, one expected match from a nested part and one expected non-match")
TOK = ["tok%02dz" % i for i in range(8)]
INTL = ["caf\u00e9q", "\u043f\u0440\u0438"]
NAMES = ["X-Part", "Content-Disposition", "Content-Description", "X-Other"]

hdr = st.tuples(st.sampled_from(NAMES), case_of, st.sampled_from(["plain", "plain", "b", "q", "fold"]), st.sampled_from(TOK), st.sampled_from(TOK + INTL)).map(list)
leaf = st.fixed_dictionaries(dict(ctype=st.sampled_from(["text/plain", "text/html", "application/octet-stream; name=\"x.bin\"", "image/gif"]), hdrs=st.lists(hdr, max_size=3), word=st.sampled_from(TOK)))
tree = st.recursive(leaf, lambda s: st.one_of(
    st.fixed_dictionaries(dict(ctype=st.just("multipart/mixed"), hdrs=st.lists(hdr, max_size=2), kids=st.lists(s, min_size=1, max_size=3))),
    st.fixed_dictionaries(dict(ctype=st.just("message/rfc822"), hdrs=st.lists(hdr, max_size=2), kids=st.lists(s, min_size=1, max_size=1)))), max_leaves=6)
rule = st.fixed_dictionaries(dict(name=st.sampled_from(NAMES + ["X-Absent", "Content-Type"]), case=case_of, raw=st.booleans(), op=st.sampled_from(["=~", "=~", "!~"]), pat=st.sampled_from(TOK + INTL + ["", "enc", "fold"]), score=st.sampled_from([None, 2.0, -1.0, 0.0]),
                                 prio=st.sampled_from([None, 1, -1, 5]), net=st.booleans()))
case_st = st.fixed_dictionaries(dict(tree=tree, rules=st.lists(rule, min_size=10, max_size=10), net=st.booleans()))


def value(h):
    _, _, k, t, extra = h
    if k == "plain":
        return t, t
    if k == "fold":
        return t + "\n\t" + extra, t + "\n\t" + extra
    return "%s %s" % (t, mime.rfc2047(extra, "utf-8", k)), "%s %s" % (t, extra)


def build(n, acc, depth=0):
    hs = []
    for h in n["hdrs"]:
        raw, dec = value(h)
        hs.append([recase(h[0], h[1]), raw])
        acc.append((h[0].lower(), raw, dec, depth))
    if "kids" in n:
        ct = "multipart/mixed; boundary" if n["ctype"].startswith("multi") else n["ctype"]
        acc.append(("content-type", ct, ct, depth))
        return dict(ctype=n["ctype"], headers=hs, children=[build(k, acc, depth + 1) for k in n["kids"]])
    acc.append(("content-type", n["ctype"], n["ctype"], depth))
    return dict(ctype=n["ctype"], headers=hs, body="%s\nX-Part: %s\nX-Absent: %s\n" % (n["word"], n["word"], n["word"]))


def body(case, w, note):
    acc = []
    src = mime.render(build(case["tree"], acc), top_headers=[["From", "a@example.com"], ["MIME-Version", "1.0"]])
    lines, exp, order, scores, evald = ["use_network %d" % case["net"]], {}, [], {}, {}
    for i, r in enumerate(case["rules"]):
        n = "R%d" % i
        vals = [(a[1] if r["raw"] else a[2], a[3]) for a in acc if a[0] == r["name"].lower()]
        pat = r["pat"]
        if pat == "enc":
            hit = lambda v: "=?utf-8?" in v
            p = "=\\?utf-8\\?"
        elif pat == "fold":
            p = "z\\s+\\S"
            hit = lambda v: re.search(r"z\s+\S", v) is not None
        else:
            hit = lambda v: pat in v
            p = esc(pat) if pat else "a?"
        sp = " " * (i % 3)
        if i % 4 == 1:
            p = "(?:%s|%s)" % (p, "=~=~ !~" if sp else "!~=~ =~")
        lines.append("mimeheader %s %s%s%s%s%s/%s/" % (n, recase(r["name"], r["case"]), ":raw" if r["raw"] else "", sp, r["op"], sp, p))
        if r["score"] is not None:
            lines.append("score %s %s" % (n, gen.fmt(r["score"])))
        if r["prio"] is not None:
            lines.append("priority %s %d" % (n, r["prio"]))
        if r["net"]:
            lines.append("tflags %s net" % n)
        lines.append("describe %s About %s" % (n, n))
        s = 1.0 if r["score"] is None else r["score"]
        if s == 0 or (r["net"] and not case["net"]):
            continue
        res = [hit(v) == (r["op"] == "=~") for v, d in vals]
        exp[n] = any(res)
        evald[n] = (-(r["prio"] or 0), i)
        scores[n] = s
        deep = any(x and d > 0 for x, (v, d) in zip(res, vals))
        order.append((exp[n], deep))
    res = w.call("core.scan", dict(files=[["a.cf", "\n".join(lines) + "\n"]], msgs=[src], want=["evaluated", "matched_report"]))
    check(res["load_exc"] is None, "the configuration failed to load", exc=res["load_exc"], lines=lines)
    out = res["results"][0]
    check("exc" not in out, "scanning raised", msg=src, out=out)
    names = sorted(evald, key=lambda n: evald[n])
    check_eq(out["evaluated"], names, "evaluated rules", conf=lines)
    check_eq(out["tests"], [n for n in names if exp[n]], "matched rules", conf=lines, msg=src)
    check_eq(float(out["score"]), sum(scores[n] for n in names if exp[n]), "score", conf=lines)
    for n in names:
        if exp[n]:
            check("About %s" % n in out["matched_report"], "description reported", report=out["matched_report"])
    note.nontrivial(len([a for a in acc if a[0] == "content-type"]) >= 2 and any(e and d for e, d in order) and any(not e for e, d in order))


FACETS = [Facet("rules", case_st, body, quick=1500)]
