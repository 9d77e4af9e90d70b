"""M02: line-ending style does not change the result."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import mail

PROPERTY = "M02"
RULE = ("cases are generated MIME mails scanned with LF, CRLF and CR line breaks by a generated configuration over all offline plugins; all observables are compared; non-trivial = the mail has a folded header or several parts and some rule matched")
ASSUMPTIONS = ["the rewritten breaks are those of the message text itself; bytes inside a base64 or quoted-printable encoding are data, not line breaks"]
WANT = ["evaluated", "report", "unsafe", "adjusted", "headers", "matched_report", "relays", "from_to", "tags", "text"]
case_st = st.fixed_dictionaries(dict(mail=mail.mail, evals=mail.evals, options=mail.options, safe=st.sampled_from([0, 1, 2]), req=st.sampled_from([-100, 5, 5, 1000]), order=st.permutations([0, 1, 2])))


def body(case, w, note):
    raw = mail.render(case["mail"])
    text = mail.config(case["evals"], case["options"], None, ["report_safe %d" % case["safe"], "required_score %s" % case["req"]])
    # each variant in a process of its own: what one message leaves behind is M03's concern
    outs = []
    for i, brk in enumerate(["\n", "\r\n", "\r"]):
        res = w.call("core.scan", dict(files=[["a.cf", text]], msgs=[raw.replace("\n", brk)], want=WANT), cpu=30)
        check(res["load_exc"] is None, "the configuration failed to load", exc=res["load_exc"])
        outs.append(res["results"][0])
    for i, name in ((1, "CRLF"), (2, "CR")):
        for key in sorted(set(outs[0]) | set(outs[i])):
            check_eq(outs[i].get(key), outs[0].get(key), "%s with %s line breaks" % (key, name), message=raw)
    note.nontrivial(bool(outs[0].get("tests")) and ("\n " in raw or "\n\t" in raw or case["mail"]["tree"]["k"] in ("multi", "rfc822")))


FACETS = [Facet("breaks", case_st, body, quick=500)]
