"""M04: envelope sender and sender/recipient address sets follow the documented headers."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "M04"
RULE = ("cases are generated headers (From/To/Resent/envelope families with display names, comments, lists and repeats, in any order) with 0-3 relays with and without envelope sender, network and envelope_sender_header settings; addresses are checked through the message and through list rules; "
        "non-trivial = addresses come from two or more headers, or the sender comes from a relay while an envelope header is present")
ASSUMPTIONS = ["a message with external relays takes the sender from the first of them only, as implemented; display names are plain or quoted (encoded words are decoded before the list is split)"]
FROM = ["From", "Envelope-Sender", "Resent-From", "X-Envelope-From", "EnvelopeFrom"]
TO = ["To", "Resent-To", "Resent-Cc", "Apparently-To", "Delivered-To", "Envelope-Recipients", "Apparently-Resent-To", "X-Envelope-To", "Envelope-To", "X-Delivered-To", "X-Original-To", "X-Rcpt-To", "X-Real-To", "Cc"]
DEFAULT_SENDER = ["X-Sender", "X-Envelope-From", "Envelope-Sender", "Return-Path"]
ADDR = ["u%d@d%d.example.com" % (i, j) for i in range(4) for j in range(3)] + ["Mixed.Case@Example.ORG", "x+tag@example.net"]
one = st.tuples(st.sampled_from(["%s", "<%s>", "John <%s>", '"Doe, John" <%s>', "%s (comment)", "  %s", '"a@fake.example" <%s>']), st.sampled_from(ADDR)).map(list)
value = st.lists(one, min_size=1, max_size=3)
header = st.one_of(
    st.tuples(st.sampled_from(FROM + TO), value), st.tuples(st.sampled_from(["From", "To", "Cc", "Resent-From", "Resent-To", "Resent-Cc"]), value), st.tuples(st.sampled_from(DEFAULT_SENDER), value),
    st.tuples(st.sampled_from(["X-Custom-Sender", "Reply-To", "Sender", "Bcc", "Resent-Sender", "To-Do", "X-From", "Return-Path"]), value), st.tuples(st.sampled_from(DEFAULT_SENDER + ["From"]), st.just([])),
    st.tuples(st.sampled_from(["from", "TO", "cC", "resent-from"]), value)).map(list)
relay = st.fixed_dictionaries(dict(ip=st.sampled_from(["10.1.2.3", "10.1.2.4", "8.7.6.5", "93.184.216.34"]), env=st.sampled_from([None, None, "<%s>", "%s"]), addr=st.sampled_from(["bounce@relay%d.example.net" % i for i in range(3)] + ["List-Owner=x@example.net"])))
case_st = st.fixed_dictionaries(dict(headers=st.lists(header, min_size=1, max_size=8), relays=st.lists(relay, max_size=3), trusted=st.sampled_from([None, "10.0.0.0/8", "8.7.6.5", "10.0.0.0/8 8.7.6.5"]), internal=st.sampled_from([None, None, "10.1.2.3", "10/8"]),
                                     always=st.booleans(), custom=st.lists(st.sampled_from(["X-Custom-Sender", "Return-Path", "From", "x-sender"]), max_size=2, unique=True), probe=st.sampled_from(ADDR)))


def body(case, w, note):
    lines = []
    for i, r in enumerate(case["relays"]):
        env = " (envelope-from %s)" % (r["env"] % r["addr"]) if r["env"] else ""
        lines.append("Received: from h%d.example.net (h%d.example.net [%s])%s by mx%d.example.org (Postfix) with ESMTP id AB%d; Fri, 14 Jul 2017 02:00:00 +0000" % (i, i, r["ip"], env, i, i))
    for name, vals in case["headers"]:
        lines.append("%s: %s" % (name, ", ".join(f % a for f, a in vals)))
    raw = "\n".join(lines + ["X-Last: y", "", "To: body@example.com", "text", ""])
    conf = ["loadplugin oa.plugins.wlbl_eval.WLBLEvalPlugin", "use_network 0", "header R_FROM eval:check_from_in_blacklist()", "header R_TO eval:check_to_in_whitelist()", "blacklist_from %s" % case["probe"], "whitelist_to %s" % case["probe"]]
    if case["trusted"]:
        conf.append("trusted_networks %s" % case["trusted"])
    if case["internal"]:
        conf.append("internal_networks %s" % case["internal"])
    if case["always"]:
        conf.append("always_trust_envelope_sender 1")
    conf += ["envelope_sender_header %s" % h for h in case["custom"]]
    res = w.call("core.scan", dict(files=[["a.cf", "\n".join(conf) + "\n"]], msgs=[raw], want=["from_to", "relays"]))
    check(res["load_exc"] is None and "exc" not in res["results"][0], "failed", res=res)
    out = res["results"][0]

    def addrs(name):
        return [a for n, vals in case["headers"] if n.lower() == name.lower() for f, a in vals]

    def first(name):
        # first address of the first header of that name that has one
        return next((vals[0][1] for n, vals in case["headers"] if n.lower() == name.lower() and vals), None)
    want_from = addrs("Resent-From") or [a for n in FROM for a in addrs(n)]
    want_to = (addrs("Resent-To") + addrs("Resent-Cc")) or [a for n in TO for a in addrs(n)]
    check_eq(out["from"], want_from, "sender addresses", message=raw)
    check_eq(out["to"], want_to, "recipient addresses", message=raw)
    sender = ""
    if out["external"]:
        sender = out["external"][0]["envfrom"]
    else:
        cands = []
        if out["trusted"] and not case["always"]:
            cands.append(out["trusted"][-1]["envfrom"])
        if out["untrusted"]:
            cands.append(out["untrusted"][0]["envfrom"])
        cands += [first(h) for h in (case["custom"] or DEFAULT_SENDER)]
        sender = next((c for c in cands if c), "")
    check_eq(out["sender"], sender, "envelope sender", message=raw, conf=conf)
    # the parsed relays carry the envelope senders that were written
    check_eq([r["envfrom"] for r in out["received"]], [(r["addr"].rsplit("=", 1)[-1] if r["env"] else "") for r in case["relays"]], "envelope senders of the relays", message=raw)
    check_eq("R_FROM" in out["tests"], case["probe"] in want_from, "blacklist_from %s" % case["probe"], message=raw)
    check_eq("R_TO" in out["tests"], case["probe"] in want_to, "whitelist_to %s" % case["probe"], message=raw)
    many = len([n for n in FROM if addrs(n)]) > 1 or len([n for n in TO if addrs(n)]) > 1
    note.nontrivial(many or bool(sender and out["received"] and any(first(h) for h in DEFAULT_SENDER)))
    note.event("sender from " + ("relay" if sender and any(sender == r["envfrom"] for r in out["received"]) else "header" if sender else "nowhere"))


FACETS = [Facet("addresses", case_st, body, quick=1500)]
