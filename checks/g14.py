"""G14: DKIM rules agree with the verification of the signature."""
import json
import os
import re
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "G14"
RULE = ("cases are generated configurations (allowed domains of the rules, whitelists, ADSP overrides, minimum key size) and messages signed with generated keys, algorithms, canonicalisations and headers, altered in transit or not, with the published keys right, wrong, revoked, split, unreadable or not to be had; the rules that match are compared with a model; "
        "non-trivial = the first signature is of the author's domain, and the message was altered or its key is not the published one or the rules name domains")
ASSUMPTIONS = ["signatures are made with the signer of the DKIM library in use and keys are published through a stand-in for the resolver", "only the first signature of a message counts, signatures of other domains than the author's do not count as signatures, and check_dkim_valid_author_sig without arguments is not decided for signatures that do not verify (the test suite pins these)"]
KEYS = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "dkim_keys.json")))
DOMS = ["example.com", "mail.example.com", "example.com.evil.net", "badexample.com", "example.org", "examplexcom.net"]
SPELL = {"example.com": ["example.com", "EXAMPLE.com", "Example.Com"]}
dom = st.sampled_from(DOMS + ["example.com"] * 3)
near = st.sampled_from(["example.com"] * 4 + DOMS + ["com", "net", "ample.com", "example", "evil.net", "EXAMPLE.COM"])
SUBJECT, BODY = "Offer of the day", "First line of text\nSecond é line\n"
GARBAGE = ["DKIM-Signature: \n", "DKIM-Signature: garbage\n", "DKIM-Signature: v=1; v=1; d=example.com\n", "DKIM-Signature: v=1; a=rsa-sha256; d=example.com; s=s0; h=from; bh=!!; b=!!\n", "DKIM-Signature: v=2; a=rsa-sha256; d=example.com; s=s0; h=from; bh=AAAA; b=AAAA\n",
           "DKIM-Signature: v=1; a=rsa-md9; d=example.com; s=s0; h=from; bh=AAAA; b=AAAA\n", "DKIM-Signature: v=1; a=rsa-sha256; s=s0; h=from; bh=AAAA; b=AAAA\n", "DKIM-Signature: v=1; a=rsa-sha256; d=\xe9x.com; s=s0; h=from; bh=AAAA; b=AAAA\n", "DKIM-Signature: v=1; a=rsa-sha256; c=odd/odd; d=example.com; s=s0; h=from; bh=AAAA; b=AAAA\n",
           "DKIM-Signature: v=1; a=rsa-sha256; d=example.com; s=s0; l=x; h=from; bh=AAAA; b=AAAA\n"]
sig = st.fixed_dictionaries(dict(domain=st.sampled_from(["author"] * 5 + DOMS), key=st.sampled_from(["a", "a", "b", "weak", "strong"]), canon=st.tuples(st.sampled_from(["simple", "relaxed"]), st.sampled_from(["simple", "relaxed"])).map(list),
                                 headers=st.sampled_from([["From", "Subject", "To"], ["From"], ["Subject", "From"], ["from", "to", "date"]]), upper=st.booleans()))
EDITS = {"none": [], "body": [["First", "Last"]], "bodyspace": [["of text", "of  text"]], "append": [["é line\n", "é line\nmore\n"]], "subject": [["Offer", "Order"]], "subjectspace": [["of the day", "of  the   day"]], "fold": [["Subject: Offer of", "Subject: Offer\n of"]],
         "case": [["Subject:", "SUBJECT:"]], "unsigned": [["X-Other: 1", "X-Other: 2"]], "received": [["X-Other: 1", "X-Another: 2\nX-Other: 1"]], "to": [["To: rcpt@example.net\n", ""]], "date": [["+0000", "+0100"]], "lines": [["é line\n", "é line\n\n\n"]]}
message = st.fixed_dictionaries(dict(author=dom, user=st.sampled_from(["user", "User", "info"]), spell=st.integers(0, 2), named=st.booleans(), nofrom=st.sampled_from([False] * 15 + [True]), sigs=st.one_of(st.lists(sig, min_size=1, max_size=1), st.lists(sig, max_size=2)), garbage=st.one_of(st.none(), st.none(), st.none(), st.none(), st.sampled_from(GARBAGE)),
                                     edit=st.sampled_from(["none"] * 6 + sorted(EDITS)), flip=st.sampled_from([False] * 5 + [True]), crlf=st.booleans(), dns=st.sampled_from(["ok"] * 9 + ["split", "other", "revoked", "garbage", "nxdomain", "timeout", "noservers", "os", "noanswer"])))
pattern = st.one_of(st.sampled_from(["user@example.com", "*@example.com", "*@*", "*", "user@*", "*@*.com", "u*@example.com", "*.evil.net", "user@mail.example.com", "*@EXAMPLE.com", "info@example.org", "user", "example.com"]))
entry = st.tuples(pattern, st.sampled_from([None, None, "example.com", "example.org", "mail.example.com"])).map(list)
PRACTICE = {"A": "all", "N": "nxdomain", "D": "discardable", "1": "custom_low", "2": "custom_med", "3": "custom_high"}
override = st.tuples(st.sampled_from(["example.com", "mail.example.com", "badexample.com", "example.org", "*.com", "*.example.com", "*.evil.net"]), st.sampled_from(sorted(PRACTICE.values()) + ["unknown", "ALL", None])).map(list)
case_st = st.fixed_dictionaries(dict(allow=st.lists(near, min_size=1, max_size=2), minbits=st.sampled_from([None, None, None, 512, 1024, 2048, 0, -5]), white=st.lists(entry, max_size=3, unique_by=lambda e: e[0]), unwhite=st.lists(pattern, max_size=1), defwhite=st.lists(pattern, max_size=2, unique=True),
                                     over=st.lists(override, max_size=5, unique_by=lambda e: e[0]), adspdom=near, order=st.randoms(use_true_random=False).map(lambda r: r.randrange(10 ** 6)), msgs=st.lists(message, min_size=1, max_size=2)))


def glob(pat, value):
    return re.fullmatch(".*".join(re.escape(p) for p in pat.lower().split("*")), value.lower()) is not None


def intact(s, edit):
    header, body = s["canon"]
    signed = [h.lower() for h in s["headers"]]
    if edit in ("none", "unsigned", "received", "lines"):
        return True
    if edit == "bodyspace":
        return body == "relaxed"
    if edit in ("body", "append"):
        return False
    if edit in ("to", "date"):
        return edit not in signed
    return "subject" not in signed or (edit != "subject" and header == "relaxed")


def body(case, w, note):
    import random
    args = ", ".join('"%s"' % a for a in case["allow"])
    rules = ["full %s eval:%s(%s)" % (n, f, a) for n, f, a in [
        ("SIGNED", "check_dkim_signed", ""), ("VALID", "check_dkim_valid", ""), ("AUTHOR", "check_dkim_valid_author_sig", ""), ("SIGNED_BY", "check_dkim_signed", args), ("VALID_BY", "check_dkim_valid", args), ("AUTHOR_BY", "check_dkim_valid_author_sig", args)]]
    rules += ["header WL eval:check_for_dkim_whitelist_from()", "header DEFWL eval:check_for_def_dkim_whitelist_from()", "header ADSP_X eval:check_dkim_adsp('*')", "header ADSP_BY eval:check_dkim_adsp('*', '%s')" % case["adspdom"]]
    rules += ["header ADSP_%s eval:check_dkim_adsp('%s')" % (c, c) for c in PRACTICE]
    random.Random(case["order"]).shuffle(rules)
    lines = ["loadplugin oa.plugins.dkim.DKIMPlugin"]
    if case["minbits"] is not None:
        lines.append("dkim_minimum_key_bits %s" % case["minbits"])
    for opt, entries in (("whitelist_from_dkim", [" ".join(x for x in e if x) for e in case["white"]]), ("unwhitelist_from_dkim", case["unwhite"]), ("adsp_override", [" ".join(x for x in e if x) for e in case["over"]])):
        if entries:
            lines.append("%s %s" % (opt, ",".join(entries)))
    lines += ["def_whitelist_from_dkim " + p for p in case["defwhite"]] + rules
    table, msgs = [], []
    for n, m in enumerate(case["msgs"]):
        shown = SPELL.get(m["author"], [m["author"]] * 3)[m["spell"]]
        addr = "%s@%s" % (m["user"], shown)
        text = "X-Other: 1\n" + ("" if m["nofrom"] else "From: %s\n" % ("Joe <%s>" % addr if m["named"] else addr)) + "Subject: %s\nTo: rcpt@example.net\nDate: Tue, 14 Nov 2017 08:09:12 +0000\n\n%s" % (SUBJECT, BODY)
        sigs = []
        for i, s in enumerate([] if m["nofrom"] else m["sigs"]):
            d = m["author"] if s["domain"] == "author" else s["domain"]
            sel = "m%ds%d" % (n, i)
            sigs.append(dict(selector=sel, domain=d.upper() if s["upper"] else d, key=s["key"], canon=s["canon"], headers=s["headers"]))
            txt = KEYS[{"other": {"a": "b"}.get(s["key"], "a")}.get(m["dns"], s["key"])]["txt"]
            rec = "v=DKIM1; k=rsa; p=" + txt
            ans = {"ok": ['"%s"' % rec[:250] + (' "%s"' % rec[250:] if rec[250:] else "")], "other": ['"%s"' % rec[:250] + (' "%s"' % rec[250:] if rec[250:] else "")], "split": ['"%s" "%s" "%s"' % (rec[:30], rec[30:230], rec[230:])], "revoked": ['"v=DKIM1; p="'], "garbage": ['"v=spf1 -all"']}.get(m["dns"], m["dns"])
            table.append(["%s._domainkey.%s" % (sel, d), "TXT", ans])
        if m["garbage"]:
            sigs.insert(0, dict(text=m["garbage"]))
        flip = m["flip"] and bool(sigs) and "text" not in sigs[0]
        msgs.append(dict(text=text, sigs=sigs, edits=EDITS[m["edit"]], flip=flip, crlf=m["crlf"]))
    res = w.call("sign.scan", dict(files=[["a.cf", "\n".join(lines) + "\n"]], table=table, msgs=msgs, keys=KEYS))
    minbits = max(1024 if case["minbits"] is None else case["minbits"], 0)
    for m, sent, r in zip(case["msgs"], msgs, res):
        info = dict(lines=lines, raw=r.get("raw"), table=table)
        check("exc" not in r, "the scan completes", exc=r.get("exc"), **info)
        author = None if m["nofrom"] else m["author"]
        first = sent["sigs"][0] if sent["sigs"] else None
        garbage = bool(first) and "text" in first
        signed = valid = False
        if first and not garbage:
            signed = first["domain"].lower() == author
            valid = signed and intact(first, m["edit"]) and not sent["flip"] and m["dns"] in ("ok", "split") and KEYS[first["key"]]["bits"] >= minbits
        allowed = bool(first) and not garbage and any(first["domain"].lower() == a.lower() or first["domain"].lower().endswith("." + a.lower()) for a in case["allow"])
        want = {"SIGNED": signed, "VALID": valid, "AUTHOR": valid, "SIGNED_BY": signed and allowed, "VALID_BY": valid and allowed, "AUTHOR_BY": valid and allowed}
        mail = "%s@%s" % (m["user"], author)
        want["WL"] = valid and any(glob(p, mail) and (not d or d == author) for p, d in case["white"] if p not in case["unwhite"])
        want["DEFWL"] = valid and any(glob(p, mail) for p in case["defwhite"] if p not in case["unwhite"])
        practice = "discardable"
        if author:
            over = [p for p in case["over"] if p[0] not in case["unwhite"]]
            hits = [p for p in over if p[0] == author] or [p for p in over if glob(p[0], author)]
            if len(set((p[1] or "discardable").lower() for p in hits)) > 1:
                practice = None
            elif hits:
                practice = (hits[0][1] or "discardable").lower()
        want["ADSP_X"] = bool(author) and not valid
        want["ADSP_BY"] = bool(author) and not valid and case["adspdom"].lower() == author
        for c, p in PRACTICE.items():
            want["ADSP_" + c] = bool(author) and not valid and p == practice
        skip = set()
        if garbage:
            skip |= {"SIGNED", "SIGNED_BY"}
        if signed and not valid:
            skip.add("AUTHOR")
        if garbage and "x.com" not in m["garbage"]:
            skip.add("AUTHOR")
        if case.get("finding"):
            skip.discard("AUTHOR")
        if practice is None:
            skip |= set("ADSP_" + c for c in PRACTICE)
        for name in want:
            if name not in skip:
                check_eq(name in r["tests"], want[name], "rule " + name, message=m, **info)
        note.nontrivial(signed and (m["edit"] != "none" or m["dns"] != "ok" or sent["flip"] or allowed))
        note.event("valid" if valid else "signed" if signed else "garbage" if garbage else "other")


FACETS = [Facet("signatures", case_st, body, quick=500)]
