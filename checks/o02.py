"""O02: add_header/remove_header/clear_headers apply as configured."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "O02"
RULE = ("cases are generated sequences of add_header / remove_header / clear_headers (and rejected) lines over few names x messages carrying X-Spam-* headers in any letter case x verdict (thresholds far from, next to and on the score) x report_safe; the header list of the output is compared with a model; "
        "non-trivial = some header is added and some is removed or cleared")
ASSUMPTIONS = ["removals for `all` apply after the additions for `all` and before the additions for the message's class, as implemented; values are single-line ASCII"]
NAMES = ["Flag", "Status", "Level-X", "Old", "flag"]
VALUES = ["YES", "score _SCORE_ of _REQD_", "_YESNO_, tests=_TESTS_", "100% sure %s %(x)s", '"quoted _YESNOCAPS_"', "a: b; c", "_TESTS(,)_", "__SCORE__", "under_score _scores_", "trailing   ", "''", "_UNKNOWNTAG_"]
line = st.one_of(
    st.tuples(st.just("add"), st.sampled_from(["all", "spam", "ham", "ALL", "Spam"]), st.sampled_from(NAMES), st.sampled_from(VALUES)), st.tuples(st.just("add"), st.sampled_from(["all", "spam", "ham"]), st.sampled_from(NAMES), st.sampled_from(VALUES)),
    st.tuples(st.just("remove"), st.sampled_from(["all", "all", "spam", "ham", "HAM"]), st.sampled_from(NAMES), st.just("")), st.tuples(st.just("clear"), st.just(""), st.just(""), st.just("")),
    st.tuples(st.just("bad"), st.sampled_from(["add_header", "remove_header", "add_header all", "add_header most Flag x", "remove_header Flag", "add_header spam", "remove_header every Flag"]), st.just(""), st.just(""))).map(list)
header = st.tuples(st.sampled_from(["X-Spam-Flag", "X-Spam-Status", "x-spam-old", "X-SPAM-FLAG", "X-Spam-Level-X", "X-Spam", "X-Spam-Flagged", "Flag", "Subject", "X-Other", "From"]), st.sampled_from(["old value", "1", "a\n\tfolded"])).map(list)
case_st = st.fixed_dictionaries(dict(lines=st.lists(line, min_size=1, max_size=9), headers=st.lists(header, min_size=1, max_size=6), spam=st.booleans(), safe=st.sampled_from([0, 1, 2]), hit=st.booleans(), near=st.sampled_from([50, 50, 1, 0.015625, 0.03125, 0, 0])))


def headers(text):
    out = []
    for l in [] if text.startswith("\n") else text.split("\n\n", 1)[0].split("\n"):
        if l[:1] in " \t" and out:
            out[-1][1] += "\n" + l
        else:
            n, v = l.split(":", 1)
            out.append([n, v.strip()])
    return out


def body(case, w, note):
    total = 3.75 if case["hit"] else 0
    # on the threshold a message is spam
    near = case["near"] if case["near"] or case["spam"] else 0.0078125
    required = total - near if case["spam"] else total + near
    conf = ["body R_A /tokalpha/", "score R_A 1.5", "body R_B /tokbravo/", "score R_B 2.25", "required_score %r" % required, "report_safe %d" % case["safe"]]
    live = []
    for op, a, name, value in case["lines"]:
        if op == "add":
            conf.append("add_header %s %s %s" % (a, name, value))
        elif op == "remove":
            conf.append("remove_header %s %s" % (a, name))
        elif op == "clear":
            conf.append("clear_headers")
            live = []
            continue
        else:
            conf.append(a)
            continue
        live.append([op, a.lower(), name, value])
    raw = "".join("%s: %s\n" % (n, v) for n, v in case["headers"]) + "\n" + ("tokalpha tokbravo\n" if case["hit"] else "nothing\n")
    res = w.call("core.scan", dict(files=[["a.cf", "\n".join(conf) + "\n"]], msgs=[raw], want=["adjusted", "headers", "matched_report"]))
    check(res["load_exc"] is None and "exc" not in res["results"][0], "failed", res=res, conf=conf)
    out = res["results"][0]
    spam = case["spam"]
    tags = {"SCORE": "%.1f" % out["score"], "REQD": "%.1f" % required, "YESNO": "Yes" if spam else "No", "YESNOCAPS": "YES" if spam else "NO", "TESTS": ",".join(out["tests"]) or "none"}

    def text(v):
        v = v.strip().strip("'\"")
        for t in sorted(tags, key=len, reverse=True):
            v = v.replace("_%s_" % t, tags[t])
        return v.replace("_UNKNOWNTAG_", "@@UNKNOWNTAG@@").strip()
    cls = "spam" if spam else "ham"

    def apply(start):
        cur = list(start)
        for kind in ("all", cls):
            cur += [["X-Spam-" + n, text(v)] for op, k, n, v in live if op == "add" and k == kind]
            gone = ["x-spam-" + n.lower() for op, k, n, v in live if op == "remove" and k == kind]
            cur = [h for h in cur if h[0].lower() not in gone]
        return cur
    src = [[n, v] for n, v in case["headers"]]
    rep = [["X-Spam-Report", "\n\t".join(x for x in out["matched_report"].strip().splitlines() if x.strip())]] if spam and case["safe"] == 0 else []
    check(out["headers"].endswith("\n\n") and "\n\n" not in out["headers"][:-2], "the headers-only output is more than headers", headers=out["headers"], message=raw)
    check_eq(headers(out["headers"]), apply(src + rep), "headers of the headers-only output", conf=conf, message=raw)
    if not spam or case["safe"] == 0:
        check_eq(headers(out["adjusted"]), apply(src + rep), "headers of the adjusted message", conf=conf, message=raw)
        check_eq(("\n" + out["adjusted"]).split("\n\n", 1)[1], raw.split("\n\n", 1)[1], "body of the adjusted message", message=raw)
    else:
        got = [h for h in headers(out["adjusted"]) if h[0].lower().startswith("x-spam-")]
        check_eq(got, apply([]), "X-Spam headers of the wrapped message", conf=conf, message=raw)
    added = [x for x in live if x[0] == "add" and x[1] in ("all", cls)]
    note.nontrivial(bool(added) and any(x[0] in ("remove", "clear") for x in case["lines"]))


FACETS = [Facet("headers", case_st, body, quick=1500)]
