"""C06: lazy and eager modes agree."""
from hypothesis import strategies as st
from harness.core import Facet, check_eq
from harness import mail

PROPERTY = "C06"
RULE = ("cases are generated configurations (all rule types, up to 12 eval rules of 17 plugins, options) and 1-3 generated MIME messages with repeated, encoded and folded headers, scanned in both modes; every output is compared; "
        "non-trivial = at least three rules matched and a header name occurs twice")
WANT = ["evaluated", "report", "unsafe", "adjusted", "headers", "matched_report", "relays", "from_to", "tags", "text"]
NAMES = ["Received", "From", "To", "Cc", "Reply-To", "Subject", "Date", "Message-ID", "Return-Path", "X-Sender", "X-Probe", "X-Originating-IP", "Received-SPF", "X-Mailer", "X-Spam-Relays-Trusted", "X-Relay-Countries"]
LOOKS = ["/./", "/^X-/", "/1\\.2\\.3/", "/tok/", "/@example\\.(?:com|net)/", "/\\n/", "/=\\?/"]
VIEWS = ["header V_%d_%d %s%s =~ %s" % (i, j, n, m, l) for i, (n, m) in enumerate([(n, "") for n in NAMES] + [(n, m) for n in NAMES[1:5] for m in (":addr", ":name", ":raw")]) for j, l in enumerate(LOOKS)]
case_st = st.fixed_dictionaries(dict(mails=st.lists(mail.mail, min_size=1, max_size=3), evals=mail.evals, options=mail.options, safe=st.sampled_from([0, 1, 2]), req=st.sampled_from([0.5, 5]), plugins=st.lists(st.sampled_from(mail.PLUGINS), max_size=5, unique=True)))


def body(case, w, note):
    text = mail.config(case["evals"], case["options"], None if not case["plugins"] else case["plugins"], ["report_safe %d" % case["safe"], "required_score %s" % case["req"]] + (VIEWS if case["safe"] != 1 else []) + (["originating_ip_headers X-Originating-IP X-Probe"] if case["req"] == 5 else []))
    msgs = [mail.render(m) for m in case["mails"]]
    a = w.call("core.scan", dict(files=[["a.cf", text]], msgs=msgs, want=WANT, lazy=True, rules=True))
    b = w.call("core.scan", dict(files=[["a.cf", text]], msgs=msgs, want=WANT, lazy=False, rules=True))
    check_eq(b["load_exc"], a["load_exc"], "loading, eager against lazy")
    check_eq(b.get("checked"), a.get("checked"), "rules, eager against lazy")
    for i, (x, y) in enumerate(zip(a["results"], b["results"])):
        x.pop("tb", None), y.pop("tb", None)
        for k in sorted(set(x) | set(y)):
            check_eq(y.get(k), x.get(k), "%s of message %d, eager against lazy" % (k, i), message=msgs[i])
    rep = any(len(set(h[0].lower() for h in m["headers"])) < len(m["headers"]) for m in case["mails"])
    note.nontrivial(rep and any(len(r.get("tests", ())) >= 3 for r in a["results"]))


FACETS = [Facet("modes", case_st, body, quick=600)]
