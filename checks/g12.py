"""G12: the auto-whitelist moves the score towards the sender's own history."""
import ipaddress
import os
import re
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

os.environ["VERIF_WARM"] = "sql"
PROPERTY = "G12"
RULE = ("cases are generated sequences of up to 12 messages from several senders, relay addresses and signers, with generated scores, factor and masks, scanned by one or two processes on a scratch SQLite database, compared after every message with a model of the table and of the adjusted score; "
        "non-trivial = some identity has a history and another one exists")
ASSUMPTIONS = ["addresses differ in more than case", "the table exists", "the relay address is that of the oldest public relay"]
SENDERS = ["joe@one.example", "ann@one.example", "joe@two.example", "jo@one.example", None]
IPS = ["8.8.4.4", "8.8.4.5", "8.8.200.1", "8.9.1.1", "9.9.9.9", "2a00:1450:4001::5", "2a00:1450:4001:8::1", "2a00:1451::1"]
PRIVATE = ["10.1.2.3", "192.168.7.7", "fd00::7"]
SIGNERS = [None, None, None, "sign.example", "other.example"]
message = st.fixed_dictionaries(dict(frm=st.sampled_from(SENDERS), signer=st.sampled_from(SIGNERS), relays=st.lists(st.sampled_from(IPS + IPS + PRIVATE), max_size=2), keys=st.lists(st.integers(0, 5), max_size=3, unique=True), after=st.booleans()))
SCORES = [1, -1, 4, -7.5, 0.25, 12]
case_st = st.fixed_dictionaries(dict(
    msgs=st.lists(message, min_size=2, max_size=5).flatmap(lambda pool: st.lists(st.tuples(st.sampled_from(pool), st.lists(st.integers(0, 5), max_size=3, unique=True), st.booleans()).map(lambda t: dict(t[0], keys=t[1], after=t[2])), min_size=2, max_size=12)),
    factor=st.sampled_from([None, 0, 0.25, 1, 1.5]), v4=st.sampled_from([None, None, 8, 24, 32, 16, 23]), v6=st.sampled_from([None, None, 64, 32, 128]), trusted=st.sampled_from([None, "8.8.4.4", "8.8.0.0/16"]), processes=st.sampled_from([1, 1, 2])))


def raw(m):
    head = ["Received: from h%d.example (h%d.example [%s]) by mx.example (Postfix) with ESMTP id A%d; Mon, 1 Jan 2017 00:00:00 +0000" % (i, i, ("IPv6:" + ip) if ":" in ip else ip, i) for i, ip in enumerate(m["relays"])]
    if m["signer"]:
        head.append("DKIM-Signature: v=1; a=rsa-sha256; d=%s; s=20130820; bh=x; b=y" % m["signer"])
    if m["frm"]:
        head.append("From: %s" % m["frm"])
    return "\n".join(head + ["Subject: s"]) + "\n\n" + " ".join("key%d" % k for k in m["keys"]) + (" after" if m["after"] else "") + "\n"


def body(case, w, note):
    lines = ["body K%d /key%d/\nscore K%d %s" % (i, i, i, s) for i, s in enumerate(SCORES)]
    lines += ["header AWL eval:check_from_in_auto_whitelist()", "score AWL 1", "body AFTER /after/", "score AFTER 2"]
    for opt, key in (("auto_whitelist_factor", "factor"), ("auto_whitelist_ipv4_mask_len", "v4"), ("auto_whitelist_ipv6_mask_len", "v6"), ("trusted_networks", "trusted")):
        if case[key] is not None:
            lines.append("%s %s" % (opt, case[key]))
    msgs = [raw(m) for m in case["msgs"]]
    res = w.call("learn.awl", dict(lines=lines, msgs=msgs, processes=case["processes"]))
    factor = 0.5 if case["factor"] is None else case["factor"]
    v4 = 16 if case["v4"] is None else case["v4"]
    v6 = 48 if case["v6"] is None else case["v6"]
    table = {}
    for n, (m, r) in enumerate(zip(case["msgs"], res)):
        info = dict(n=n, lines=lines[6:], msgs=msgs[:n + 1])
        check("exc" not in r, "the scan completes", exc=r.get("exc"), **info)
        public = [ip for ip in m["relays"] if not ipaddress.ip_address(ip).is_private]
        if public:
            ip = ipaddress.ip_address(public[-1])
            key = ipaddress.ip_network("%s/%d" % (ip, v4 if ip.version == 4 else v6), strict=False).network_address
            key = re.sub(r"(\.0){1,3}$", "", str(key)) if ip.version == 4 else str(key)
        else:
            key = "none"
        who = (m["frm"] or "", m["signer"] or "")
        pre = sum(SCORES[k] for k in m["keys"])
        ident = who[:1] + (key,) + who[1:]
        if ident not in table and who[:1] + ("none",) + who[1:] in table:
            # what is known without an address becomes the history of the first address
            table[ident] = table.pop(who[:1] + ("none",) + who[1:])
        count, total = table.get(ident, (0, 0.0))
        want = pre
        if count:
            want = pre + (total / count - pre) * factor
            note.nontrivial(len(table) > 1)
            check_eq(r["tags"].get("AWLCOUNT"), "%2.1f" % count, "AWLCOUNT", **info)
            check(abs(float(r["tags"].get("AWLMEAN", "1e9")) - total / count) <= 0.0501, "AWLMEAN", tags=r["tags"], mean=total / count, **info)
            check_eq(r["tags"].get("AWLPRESCORE"), "%2.1f" % pre, "AWLPRESCORE", **info)
        else:
            check_eq([t for t in r["tags"] if t.startswith("AWL")], [], "no adjustment without a history", **info)
        check(abs(r["score"] - want - (2 if m["after"] else 0)) < 1e-6, "score of the message", got=r["score"], want=want + (2 if m["after"] else 0), history=[count, total], identity=ident, **info)
        table[ident] = (count + 1, total + pre)
        check("AWL" not in r["tests"], "the rule itself never matches", **info)
        got = {(e, i, s): (c, t) for e, i, s, c, t in r["table"]}
        check_eq(sorted(got), sorted(table), "identities of the table", **info)
        for k in table:
            check(got[k][0] == table[k][0] and abs(got[k][1] - table[k][1]) < 1e-6, "history of %r" % (k,), got=got[k], want=table[k], **info)


FACETS = [Facet("history", case_st, body, quick=400)]
