"""O01: the adjusted message preserves the original and marks spam as configured."""
import email
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import mail, gen

PROPERTY = "O01"
RULE = ("cases are generated MIME mails (folded and encoded headers, all transfer encodings, nested parts, lines starting with From, with or without final line break) x verdict x report_safe 0/1/2 x header additions x report templates; the output text is compared with the source text and parsed by an independent MIME parser; "
        "non-trivial = the mail has two or more headers and a body of at least two lines and some rule matched")
ASSUMPTIONS = ["header values are ASCII (the unencoded 8-bit header of a Unicode message source cannot be kept in a mail and is RFC 2047 encoded)", "the type of the attached original is message/rfc882 as the unit tests require"]
TEMPLATES = ["report Spam detected, score _SCORE_", "report tests: _TESTS_ 100%", "report _SUMMARY_", "report  caf\u00e9 report", "unsafe_report do not open", "report", "unsafe_report _YESNO_ _REPORT_", "clear_report_template", "report " + "long " * 40]
ADDS = [("all", "Checker", "here"), ("spam", "Flag", "YES"), ("ham", "Ok", "fine _SCORE_"), ("all", "Tests", "_TESTS_"), ("all", "Multi", "a b _YESNO_")]
case_st = st.fixed_dictionaries(dict(
    mail=mail.mail, words=st.lists(st.sampled_from(gen.WORDS[:4]), max_size=3, unique=True), safe=st.sampled_from([0, 1, 1, 2]), spam=st.booleans(), near=st.sampled_from([None, None, 0, 1 / 64]), templates=st.lists(st.sampled_from(TEMPLATES), max_size=4),
    adds=st.lists(st.integers(0, len(ADDS) - 1), max_size=3, unique=True), tail=st.sampled_from(["\n", "\n", "", "\n\n\n", "last line without break"])))


def folded(v):
    return "\n\t".join(x for x in v.strip().splitlines() if x.strip())


def body(case, w, note):
    raw = mail.render(case["mail"])
    leafy = case["mail"]["tree"]["k"] == "text" and case["mail"]["tree"]["cte"] not in ("base64", "quoted-printable")
    if leafy:
        raw = raw.rstrip("\n") + case["tail"] if raw.rstrip("\n") != raw.split("\n\n", 1)[0] else raw
    rules = ["body B_%d /%s|text/" % (i, x) for i, x in enumerate(case["words"])] + ["full F_ANY /./"]
    required = -50 if case["spam"] else 50
    if case["near"] is not None:
        # on and next to the score of the message, which is a small whole number
        score = w.call("core.scan", dict(files=[["a.cf", "\n".join(rules) + "\n"]], msgs=[raw], want=[]))["results"][0]["score"]
        required = score - case["near"] if case["spam"] else score + (case["near"] or 1 / 128)
    conf = rules + ["required_score %r" % required, "report_safe %d" % case["safe"]] + case["templates"]
    adds = [ADDS[i] for i in case["adds"]]
    conf += ["add_header %s %s %s" % a for a in adds]
    res = w.call("core.scan", dict(files=[["a.cf", "\n".join(conf).encode("utf-8").decode("latin-1") + "\n"]], msgs=[raw], want=["report", "unsafe", "adjusted", "headers", "matched_report"]))
    check(res["load_exc"] is None and "exc" not in res["results"][0], "failed", res=res, message=raw)
    out = res["results"][0]
    check_eq(out["spam"], case["spam"], "verdict")
    head, text = raw.split("\n\n", 1)
    mods = ""
    if case["spam"] and case["safe"] == 0:
        mods += "\nX-Spam-Report: " + folded(out["matched_report"])
    yes = "Yes" if case["spam"] else "No"
    for kind in ("all", "spam" if case["spam"] else "ham"):
        for k, name, value in adds:
            if k == kind:
                mods += "\nX-Spam-%s: %s" % (name, value.replace("_SCORE_", "%.1f" % out["score"]).replace("_TESTS_", ",".join(out["tests"]) or "none").replace("_YESNO_", yes))
    check_eq(out["headers"], head + mods + "\n\n", "headers-only output", message=raw)
    adj = out["adjusted"]
    if not case["spam"] or case["safe"] == 0:
        check_eq(adj, head + mods + "\n\n" + text, "adjusted message", message=raw)
    else:
        p = email.message_from_string(adj)
        check_eq(p.get_content_type(), "multipart/mixed", "type of the wrapped message", adjusted=adj)
        check(p.is_multipart() and len(p.get_payload()) == 2, "the wrapped message does not have two parts", adjusted=adj)
        rep, orig = p.get_payload()
        check_eq(rep.get_content_type(), "text/plain", "type of the report part", adjusted=adj)
        check_eq(rep.get_payload(decode=True).decode("utf-8").replace("\r\n", "\n"), (out["report"] + out["unsafe"]).replace("\r\n", "\n"), "report part", adjusted=adj)
        check_eq(orig.get_content_type(), "text/plain" if case["safe"] == 2 else "message/rfc882", "type of the original's part", adjusted=adj)
        # the text between the part's header and the closing boundary is the complete original
        b = p.get_boundary()
        inner = adj.split("\n--" + b)[2].split("\n\n", 1)[1]
        check_eq(inner, raw, "attached original", adjusted=adj)
        src = email.message_from_string(raw)
        for name, other in (("From", "To"), ("To", "From"), ("Subject", "Subject"), ("Date", "Date")):
            if other in src:
                check_eq(p[name], src[other], "%s of the wrapped message" % name, message=raw)
        for line in mods.split("\n")[1:]:
            check(("\n" + line + "\n") in adj.split("\n\n", 1)[0] + "\n", "added header missing from the wrapped message", line=line, adjusted=adj)
    note.nontrivial(bool(out["tests"]) and len(case["mail"]["headers"]) > 1 and text.count("\n") > 1)
    note.event("wrapped" if case["spam"] and case["safe"] else "spam marked" if case["spam"] else "ham")


FACETS = [Facet("adjusted", case_st, body, quick=900)]
