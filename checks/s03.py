"""S03: evaluation order."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import gen

PROPERTY = "S03"
RULE = ("cases are 2-12 rules of all types with generated priorities (absent, equal, negative, large, non-integer), their option lines shuffled anywhere in "
        "one or two files; non-trivial = at least three evaluated rules, two distinct priorities and one tie")
KINDS = gen.RULE_KINDS + ["meta", "eval", "uri_detail"]
PRIOS = [None, None, "0", "1", "2", "10", "-1", "-10", "100", "1000", "+3", "abc", "1.5", "-2", "00"]


@st.composite
def cases(draw):
    n = draw(st.integers(2, 12))
    lines = []
    rules = []
    for i in range(n):
        r = dict(name=gen.NAMES[i], kind=draw(st.sampled_from(KINDS)), prio=draw(st.sampled_from(PRIOS)), hit=draw(st.integers(0, 9)) > 0,
                 score=draw(st.sampled_from([None, 1.0, 2.5, -1.0, 0.25])))
        rules.append(r)
        lines.append([i, "def"])
        if r["prio"] is not None:
            lines.append([i, "prio"])
        if r["score"] is not None:
            lines.append([i, "score"])
        if draw(st.booleans()):
            lines.append([i, "describe"])
    if draw(st.booleans()):
        lines = draw(st.permutations(lines))
    return dict(rules=rules, lines=[list(l) for l in lines], cut=draw(st.integers(0, len(lines))), nohit=draw(st.booleans()))


def text_of(case):
    out = []
    for i, what in case["lines"]:
        r = case["rules"][i]
        word = "tokalpha" if r["hit"] else "tokbravo"
        if what == "def":
            if r["kind"] == "meta":
                out.append("meta %s %s" % (r["name"], "__HIT" if r["hit"] else "!__HIT"))
            elif r["kind"] == "eval":
                out.append("header %s eval:check_for_missing_to_header()" % r["name"] if r["hit"] else "header %s eval:check_for_unique_subject_id()" % r["name"])
            elif r["kind"] == "uri_detail":
                out.append("uri_detail %s raw =~ /%s/" % (r["name"], word))
            else:
                out.append(gen.rule_line(r["kind"], r["name"], word))
        elif what == "prio":
            out.append("priority %s %s" % (r["name"], r["prio"]))
        elif what == "score":
            out.append("score %s %s" % (r["name"], gen.fmt(r["score"])))
        else:
            out.append("describe %s text of %s" % (r["name"], r["name"]))
    return out


def prio(r):
    try:
        return int(r["prio"])
    except (TypeError, ValueError):
        return 0


def body(case, w, note):
    head = ["loadplugin oa.plugins.uri_detail.URIDetailPlugin", "loadplugin oa.plugins.header_eval.HeaderEval", "body __HIT /tokalpha/",
            "report tests=_TESTS_", "report _SUMMARY_"]
    lines = text_of(case)
    files = [["a.cf", "\n".join(head + lines[:case["cut"]]) + "\n"], ["b.cf", "\n".join(lines[case["cut"]:]) + "\n"]]
    raw = gen.probe_message(["tokalpha"]).replace("To: rcpt@example.org\n", "")
    res = w.call("core.scan", dict(files=files, msgs=[raw, raw], want=["matched_report", "evaluated", "report"]))
    check(res["load_exc"] is None, "the configuration failed to load", files=files, exc=res["load_exc"])
    seen = []
    for i, what in case["lines"]:
        if i not in seen:
            seen.append(i)
    order = sorted(seen, key=lambda i: -prio(case["rules"][i]))  # stable
    names = [case["rules"][i]["name"] for i in order]
    hits = [case["rules"][i]["name"] for i in order if case["rules"][i]["hit"]]
    for out in res["results"]:
        check("exc" not in out, "scanning raised", files=files, out=out)
        check_eq(out["evaluated"], names, "evaluation order", files=files)
        check_eq(out["tests"], hits, "order of matched rules", files=files)
        check_eq([l.split(" ")[2] for l in out["matched_report"].replace("\r", "").split("\n") if l.startswith("* ")], hits, "order in the report", files=files)
        rep = out["report"].replace("\r", "").split("\n")
        check_eq(rep[0], "tests=" + (",".join(hits) or "none"), "_TESTS_", files=files)
        check_eq([l.split()[1] for l in rep[1:] if l.strip()], hits, "_SUMMARY_", files=files)
    prios = [prio(r) for r in case["rules"]]
    note.nontrivial(len(prios) >= 3 and len(set(prios)) >= 2 and len(set(prios)) < len(prios))
    note.event("shuffled" if case["lines"] != sorted(case["lines"], key=lambda l: l[0]) else "in order")


FACETS = [Facet("order", cases(), body, quick=1500)]
