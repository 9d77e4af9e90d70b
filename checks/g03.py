"""G03: white/black lists match exactly the listed address patterns."""
import hashlib
import ipaddress
import json
import re
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "G03"
RULE = ("cases are generated list options (globs and near misses for every address list, rcvd lists with relay names, addresses and networks, URI host lists with exemptions and delisting, subject expressions) and messages with generated sender, recipient, relay, envelope, URL and subject data; every list rule's result is compared with a model; "
        "non-trivial = some list rule with entries matches and another list rule with entries does not")
ASSUMPTIONS = ["a pattern without @ is a pattern for the domain; a pattern without @, ? and . is ignored", "? stands for at most one character", "a subdomain of an exempted URI host is not generated", "subjects are plain ASCII on one line", "subject entries are regular expressions matched at the start"]
LOAD = "loadplugin oa.plugins.wlbl_eval.WLBLEvalPlugin"
ADDR = ["joe@example.com", "Joe@Example.COM", "joe@example.com.evil.net", "xjoe@example.com", "joe@sub.example.com", "joe@examplexcom.org", "joe@badexample.com", "j.o+e@example.org", "joe@example.org", "ann@exampl.com", "ann@exammple.com", "a-b@x.co.uk", "joe@e.xample.com", "jo*e@example.com"]
GLOB = ["joe@example.com", "*@example.com", "*@*.example.com", "example.com", "*.example.com", "*example.com", "joe@*", "JOE@EXAMPLE.com", "?oe@example.com", "*@exam?ple.com", "*@e?xample.com", "j.o+e@example.org", "*@exam*", "nodots", "*", "*@", "joe@example", "oe@example.com", "*.*@*", "ex?mple.org", "*@example.c?m", "(joe@example.com", "joe@example.com|x@y.z", "^joe@example.com", "j*e@example.com",
        "*@x.co.uk", ".*@example.org", "[a-z]*@example.com"]
LISTS = ["whitelist_from", "blacklist_from", "whitelist_to", "blacklist_to", "all_spam_to", "more_spam_to"]
FROMH = ["From", "Envelope-Sender", "X-Envelope-From", "EnvelopeFrom"]
TOH = ["To", "Cc", "Apparently-To", "Delivered-To", "Envelope-Recipients", "Apparently-Resent-To", "X-Envelope-To", "Envelope-To", "X-Delivered-To", "X-Original-To", "X-Rcpt-To", "X-Real-To"]
FIXED = [("FW", "check_from_in_whitelist()"), ("FB", "check_from_in_blacklist()"), ("TW", "check_to_in_whitelist()"), ("TB", "check_to_in_blacklist()"), ("TA", "check_to_in_all_spam()"), ("TM", "check_to_in_more_spam()")]
entry = st.sampled_from(GLOB)
header = st.one_of(st.tuples(st.sampled_from(FROMH + FROMH[:1] * 3 + ["Resent-From"]), st.lists(st.sampled_from(ADDR), min_size=1, max_size=3)), st.tuples(st.sampled_from(TOH + TOH[:1] * 6 + ["Resent-To", "Resent-Cc"]), st.lists(st.sampled_from(ADDR), min_size=1, max_size=3)),
                   st.tuples(st.sampled_from(["Reply-To", "Sender", "X-Other"]), st.lists(st.sampled_from(ADDR), min_size=1, max_size=2))).map(list)
addr_st = st.fixed_dictionaries(dict(lists=st.lists(st.tuples(st.sampled_from(LISTS), st.lists(entry, min_size=1, max_size=4)).map(list), min_size=1, max_size=6), headers=st.lists(header, min_size=1, max_size=6), named=st.booleans(), named_rules=st.lists(st.tuples(st.sampled_from(["from", "to"]), st.sampled_from(LISTS)), max_size=3).map(lambda l: [list(x) for x in l])))


def glob_matches(pattern, address):
    if "@" not in pattern:
        if not re.search(r"[?.]", pattern):
            return False
        pattern = "*@" + pattern
    rx = "".join({"*": ".*", "?": ".?"}.get(c, re.escape(c)) for c in pattern.lower())
    return re.match("(?:%s)\\Z" % rx, address.lower()) is not None


def senders(headers):
    res = [a for h, l in headers if h == "Resent-From" for a in l]
    return res or [a for h, l in headers if h in FROMH for a in l]


def recipients(headers):
    res = [a for h, l in headers if h in ("Resent-To", "Resent-Cc") for a in l]
    return res or [a for h, l in headers if h in TOH for a in l]


def header_lines(headers, named=False):
    return ["%s: %s" % (h, ", ".join("Some One <%s>" % a if named and i % 2 else a for i, a in enumerate(l))) for h, l in headers]


def run(w, lines, head, text="some text here\n"):
    raw = "\n".join(head) + "\n\n" + text
    res = w.call("core.scan", dict(files=[["a.cf", "\n".join(lines) + "\n"]], msgs=[raw], want=[]))
    check(res["load_exc"] is None, "the configuration failed to load", lines=lines, exc=res["load_exc"])
    out = res["results"][0]
    check("exc" not in out, "scanning raised", lines=lines, raw=raw, out=out)
    return out["tests"], raw


def compare(note, lines, raw, tests, want, relevant=None):
    for name in sorted(want):
        check((name in tests) == want[name], "rule %s %s, expected %s" % (name, "matched" if name in tests else "did not match", "a match" if want[name] else "none"), lines=lines, raw=raw)
    check_eq(sorted(set(tests) - set(want)), [], "unexpected matches", lines=lines, raw=raw)
    vals = [want[n] for n in (want if relevant is None else relevant)]
    note.nontrivial(any(vals) and not all(vals))


def addr_body(case, w, note):
    lines = [LOAD] + ["header %s eval:%s" % (n, e) for n, e in FIXED]
    lists = {}
    for key, entries in case["lists"]:
        lines.append("%s %s" % (key, " ".join(entries)))
        lists.setdefault(key, []).extend(entries)
    fr, to = senders(case["headers"]), recipients(case["headers"])

    def hit(addresses, key):
        return any(glob_matches(p, a) for p in lists.get(key, []) for a in addresses)
    want = {"FW": hit(fr, "whitelist_from"), "FB": hit(fr, "blacklist_from"), "TW": hit(to, "whitelist_to"), "TB": hit(to, "blacklist_to"), "TA": hit(to, "all_spam_to"), "TM": hit(to, "more_spam_to")}
    rel = [n for (n, e), k in zip(FIXED, ["whitelist_from", "blacklist_from", "whitelist_to", "blacklist_to", "all_spam_to", "more_spam_to"]) if k in lists]
    for i, (who, key) in enumerate(case["named_rules"]):
        lines.append("header N%d eval:check_%s_in_list('%s')" % (i, who, key))
        want["N%d" % i] = hit(fr if who == "from" else to, key)
        if key in lists:
            rel.append("N%d" % i)
    tests, raw = run(w, lines, header_lines(case["headers"], case["named"]))
    for n in rel:
        note.event("%s %s" % (n[0], "hit" if want[n] else "miss"))
    compare(note, lines, raw, tests, want, rel)


# relay lists
RELAYS = [("8.8.8.8", "mx.example.com"), ("8.8.4.4", "sub.mx.example.com"), ("93.184.216.34", "badmx.example.com"), ("1.2.3.4", "mail.Example.org"), ("1.2.3.40", ""), ("2.2.2.2", "example.net")]
WHERE = ["mx.example.com", "example.com", "[8.8.8.8]", "[8.8.8]", "8.8.0.0/16", "[93.184.216.34]", "example.org", "[1.2.3.4]", "x.example.com", "[1.2.3.4/32]", "example.net", "1.2.3.4"]
TRUSTED = ["8.8.8.8", "1.2.3.4", "93.184.216.34"]
rcvd = st.tuples(st.sampled_from(["whitelist_from_rcvd", "whitelist_from_rcvd", "def_whitelist_from_rcvd"]), entry, st.lists(st.sampled_from(WHERE), min_size=1, max_size=2)).map(list)
near = st.sampled_from(["joe@example.com", "*@example.com", "example.com", "*@*.example.com", "joe@*", "?oe@example.com"])
rcvd = st.one_of(rcvd, st.tuples(st.sampled_from(["whitelist_from_rcvd", "def_whitelist_from_rcvd"]), near, st.lists(st.sampled_from(WHERE), min_size=1, max_size=2)).map(list))
rcvd_st = st.fixed_dictionaries(dict(rcvd=st.lists(rcvd, min_size=1, max_size=4), allow=st.one_of(st.just([]), st.lists(entry, max_size=2)), white=st.one_of(st.just([]), st.just([]), st.lists(entry, max_size=1)), froms=st.lists(st.sampled_from(ADDR + ADDR[:2] * 3 + ADDR[4:5] * 3), min_size=1, max_size=3),
                                     relays=st.lists(st.integers(0, len(RELAYS) - 1), max_size=3, unique=True), trusted=st.sampled_from([0, 0, 1, 2, 3]), order=st.permutations(range(4))))


def at(relay, where):
    ip, rdns = relay
    where = where.strip("[]")
    if re.match(r"[\d./]+\Z", where):
        if "/" not in where:
            parts = where.split(".")
            where = ".".join(parts + ["0"] * (4 - len(parts))) + "/%d" % (8 * len(parts))
        return ipaddress.ip_address(ip) in ipaddress.ip_network(where)
    return rdns.lower() == where or rdns.lower().endswith("." + where)


def received(i, relay, env=""):
    return "Received: from h%d.example.com (%s [%s])%s by mx%d.example.org (Postfix) with ESMTP id ABC%d for <r@example.org>; Mon, 1 Feb 2016 10:00:00 +0000" % (i, relay[1] or "unknown", relay[0], " (envelope-from %s)" % env if env else "", i, i)


def rcvd_body(case, w, note):
    rules = [("A_W", "check_from_in_whitelist()"), ("B_D", "check_from_in_default_whitelist()"), ("C_FW", "check_forged_in_whitelist()"), ("D_FD", "check_forged_in_default_whitelist()")]
    lines = [LOAD] + ["header %s eval:%s" % rules[i] for i in case["order"]]
    for key, pat, where in case["rcvd"]:
        lines.append("%s %s %s" % (key, pat, " ".join(where)))
    if case["allow"]:
        lines.append("whitelist_allow_relays " + " ".join(case["allow"]))
    if case["white"]:
        lines.append("whitelist_from " + " ".join(case["white"]))
    trust = TRUSTED[:case["trusted"]]
    if trust:
        lines.append("trusted_networks " + " ".join(trust))
    relays = [RELAYS[i] for i in case["relays"]]
    n = 0
    while n < len(relays) and relays[n][0] in trust:
        n += 1
    checked = relays[n:n + 1] or relays

    def state(address, key):
        """1: listed with one of its relays, -1: listed with other relays only, 0: not listed."""
        if not relays:
            return 0
        res = 0
        for k, pat, where in case["rcvd"]:
            if k == key and glob_matches(pat, address):
                if any(at(r, x) for r in checked for x in where):
                    return 1
                res = -1
        if res and any(glob_matches(p, address) for p in case["allow"]):
            return 0
        return res

    def overall(key, white):
        states = [1 if white and any(glob_matches(p, a) for p in case["white"]) else state(a, key) for a in case["froms"]]
        return 1 if 1 in states else min(states)
    ws, ds = overall("whitelist_from_rcvd", True), overall("def_whitelist_from_rcvd", False)
    want = {"A_W": ws == 1, "B_D": ds == 1, "C_FW": ws == -1 and ds == 0, "D_FD": ws == 0 and ds == -1}
    head = [received(i, r) for i, r in enumerate(relays)] + ["From: " + ", ".join(case["froms"])]
    tests, raw = run(w, lines, head)
    note.event("states %d %d" % (ws, ds))
    compare(note, lines, raw, tests, want)


# URI host lists
HOST = ["example.com", "sub.example.com", "a.sub.example.com", "badexample.com", "example.com.evil.net", "EXAMPLE.org", "www.example.org", "1.2.3.4", "11.2.3.4", "example.net", "x.example.net"]
ENT = ["example.com", "sub.example.com", "Example.org", "1.2.3.4", "example.net", "evil.net", "www.example.org"]
NEG = ["!a.sub.example.com", "!x.example.net", "!www.example.org", "!1.2.3.4", "!badexample.com"]
uent = st.lists(st.one_of(st.sampled_from(ENT), st.sampled_from(ENT), st.sampled_from(NEG)), min_size=1, max_size=3)
uline = st.one_of(st.tuples(st.sampled_from(["enlist_uri_host (MY)", "enlist_uri_host (OTHER)", "blacklist_uri_host", "whitelist_uri_host", "enlist_uri_host (BLACK)"]), uent), st.tuples(st.sampled_from(["delist_uri_host", "delist_uri_host (MY)", "delist_uri_host (WHITE)", "delist_uri_host (BLACK)"]), st.lists(st.sampled_from(ENT + [x[1:] for x in NEG]), min_size=1, max_size=2))).map(list)
url = st.tuples(st.sampled_from(["http://%s/", "http://%s", "https://%s/path/x?q=http://y.example", "http://%s:8080/z", "http://user@%s/z", "HTTP://%s/Q", "http://%s?x=1", "see %s.", "http://other.invalid/%s", "http://other.invalid/?u=%s"]), st.sampled_from(HOST)).map(list)
uri_st = st.fixed_dictionaries(dict(lines=st.lists(uline, min_size=1, max_size=6), urls=st.lists(url, min_size=1, max_size=4), html=st.booleans()))


def uri_body(case, w, note):
    rules = [("MY", "check_uri_host_listed('MY')"), ("OTHER", "check_uri_host_listed('OTHER')"), ("WHITE", "check_uri_host_in_whitelist()"), ("BLACK", "check_uri_host_in_blacklist()"), ("NONE", "check_uri_host_listed('NONE')")]
    lines = [LOAD] + ["body U_%s eval:%s" % r for r in rules] + ["%s %s" % (a, " ".join(b)) for a, b in case["lines"]]
    listed, removed = {}, {}
    for key, ents in case["lines"]:
        m = re.search(r"\((\w+)\)", key)
        if key.startswith("delist"):
            removed.setdefault(m.group(1) if m else "ALL", set()).update(ents)
        else:
            listed.setdefault(m.group(1) if m else {"b": "BLACK", "w": "WHITE"}[key[0]], []).extend(ents)
    case_of = {"Example.org": "Example.org"}
    hosts = []
    for tpl, host in case["urls"]:
        if "other.invalid" in tpl:
            hosts.append("other.invalid")
        elif tpl.startswith("see"):
            if not host.startswith("www."):
                continue
            hosts.append(host)
        else:
            hosts.append(host)
    want = {}
    for name, _ in rules:
        off = removed.get(name, set()) | removed.get("ALL", set())
        ents = [e for e in listed.get(name, []) if e.strip("!") not in off]
        inside = [e.lower() for e in ents if not e.startswith("!")]
        outside = [e[1:].lower() for e in ents if e.startswith("!")]
        want["U_" + name] = any(h.lower() not in outside and any(h.lower() == e or h.lower().endswith("." + e) for e in inside) for h in hosts)
    if case["html"]:
        text = "<html><body>" + "".join('<a href="%s">here</a>\n' % (t % h) for t, h in case["urls"] if not t.startswith("see")) + "</body></html>\n"
        hosts = [h for (t, h) in case["urls"] if not t.startswith("see")]
        head = ["From: a@b.example", "Content-Type: text/html; charset=us-ascii", "MIME-Version: 1.0"]
        if any(t.startswith("see") for t, h in case["urls"]):
            text += "<p>%s</p>\n" % " ".join(t % h for t, h in case["urls"] if t.startswith("see"))
    else:
        head = ["From: a@b.example"]
        text = "".join("visit %s now\n" % (t % h) for t, h in case["urls"])
    tests, raw = run(w, lines, head, text)
    compare(note, lines, raw, tests, want, ["U_" + n for n in listed if n != "NONE"])


# envelope domain against relay names
MF = ["joe@example.com", "joe@sub.example.com", "joe@Example.COM", "x@ample.com", "x@mx.example.co.uk", "x@co.uk", "x@mail.example.org", "x@net", "x@a.b.example.net", "x@e.com"]
RD = ["mx.example.com", "badexample.com", "example.com", "example.com.evil.net", "mx.Example.org", "other.co.uk", "mx.example.co.uk", "net", "b.example.net", "c.example.net", "", "e.com", "the.com"]
mf_st = st.fixed_dictionaries(dict(addr=st.sampled_from(MF), rdns=st.lists(st.sampled_from(RD), min_size=0, max_size=3), trusted=st.integers(0, 3), tld=st.sampled_from(["", "", "util_rb_2tld co.uk", "util_rb_2tld co.uk\nutil_rb_3tld b.example.net", "util_rb_tld com net"]), via=st.sampled_from(["header", "relay"])))


def base(domain, tld):
    parts = domain.lower().split(".")
    known = set(x for l in tld.split("\n") for x in l.split()[1:])
    if len(parts) < 3:
        return ".".join(parts)
    if ".".join(parts[-3:]) in known:
        return ".".join(parts[-4:])
    if ".".join(parts[-2:]) in known:
        return ".".join(parts[-3:])
    return ".".join(parts[-2:])


def mf_body(case, w, note):
    ips = ["8.8.8.8", "9.9.9.9", "7.7.7.7"]
    lines = [LOAD, "header MF eval:check_mailfrom_matches_rcvd()", "always_trust_envelope_sender 1", "envelope_sender_header X-Sender"] + [x for x in case["tld"].split("\n") if x]
    n = min(case["trusted"], len(case["rdns"]))
    if n:
        lines.append("trusted_networks " + " ".join(ips[:n]))
        lines.append("internal_networks " + " ".join(ips[:n]))
    via = "relay" if n < len(case["rdns"]) else "header"
    head = [received(i, (ips[i], r), case["addr"] if via == "relay" and i == n else "") for i, r in enumerate(case["rdns"])]
    head += ["From: z@example.invalid"] + (["X-Sender: " + case["addr"]] if via == "header" else [])
    dom = base(case["addr"].split("@")[1], case["tld"])
    checked = [r.lower() for r in (case["rdns"][n:n + 1] or case["rdns"])]
    want = {"MF": any(r == dom or r.endswith("." + dom) for r in checked)}
    tests, raw = run(w, lines, head)
    compare(note, lines, raw, tests, want)
    note.event("match" if want["MF"] else "no match")
    note.nontrivial(any(r.endswith(dom) for r in checked))


# subjects
PAT = ["urgent", "[a-z]+ offer", ".*deal$", "URGENT", "urg?ent", "a|b", "\\d+ %", "(broken", "urgent x", "(?i)Urgent"]
SUBJ = ["urgent", "urgent offer", "an urgent thing", "Urgent", "a big deal", "deal breaker", "100 % free", "b", "", "urgent xy"]
subj_st = st.fixed_dictionaries(dict(w=st.lists(st.sampled_from(PAT), max_size=3), b=st.lists(st.sampled_from(PAT), max_size=3), subjects=st.lists(st.sampled_from(SUBJ), min_size=1, max_size=3)))


def subj_body(case, w, note):
    lines = ["loadplugin oa.plugins.whitelist_subject.WhiteListSubjectPlugin", "header S_W eval:check_subject_in_whitelist()", "header S_B eval:check_subject_in_blacklist()"]
    lines += ["whitelist_subject " + p for p in case["w"]] + ["blacklist_subject " + p for p in case["b"]]
    seen = set()
    for s in case["subjects"]:
        tests, raw = run(w, lines, ["From: a@b.example", "Subject: " + s])
        want = {}
        for n, key in (("S_W", "w"), ("S_B", "b")):
            want[n] = any(re.match(p, s) is not None for p in case[key] if p != "(broken")
            seen.add((n, want[n]))
        compare(note, lines, raw, tests, want)
    note.nontrivial(len(seen) > 2 and bool(case["w"] or case["b"]))


FACETS = [Facet("addresses", addr_st, addr_body, quick=900), Facet("relays", rcvd_st, rcvd_body, quick=900), Facet("uris", uri_st, uri_body, quick=900), Facet("mailfrom", mf_st, mf_body, quick=500), Facet("subjects", subj_st, subj_body, quick=300)]
