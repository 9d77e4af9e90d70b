"""G09: SPF verdicts follow the Received-SPF header or the evaluated result."""
import ipaddress
import re
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "G09"
RULE = ("cases are generated lists of Received-SPF headers (results, identities, spellings, unusable ones), Authentication-Results, relays with HELO names, addresses and envelope senders, SPF records of the domains involved served by a stand-in resolver (with timeouts and broken records), options and sender whitelists; all 16 rules are compared with a model; "
        "non-trivial = a result rule of each identity is expected, or a header result overrides a different evaluated one")
ASSUMPTIONS = ["SPF records use only ip4, ip6 and all", "a usable Authentication-Results header stands before no other SPF clause", "without an envelope sender only the HELO identity is evaluated", "an entry without @, ? and . is ignored, ? stands for at most one character"]
RESULTS = ["pass", "neutral", "none", "fail", "softfail", "permerror", "temperror"]
RECORDS = {"strict.example": "v=spf1 ip4:192.0.2.0/24 ip6:2001:db8::/32 -all", "mail.strict.example": "v=spf1 ip4:192.0.2.7 -all", "soft.example": "v=spf1 ip4:198.51.100.7 ~all", "neutral.example": "v=spf1 ip4:192.0.2.7 ?all", "broken.example": "v=spf1 ip4:192.0.2.7 bogus:1 -all", "open.example": "v=spf1 +all", "other.example": "not an spf record"}
FAULTS = {"slow.example": "timeout", "dead.example": "noservers", "empty.example": "noanswer", "cut.example": "os"}
HOSTS = sorted(RECORDS) + sorted(FAULTS) + ["missing.example"]
IPS = ["192.0.2.7", "192.0.2.200", "198.51.100.7", "203.0.113.9", "2001:db8::7"]
SPELL = [str.lower, str.lower, str.lower, str.capitalize, str.upper]
result = st.tuples(st.sampled_from(RESULTS), st.integers(0, 4)).map(list)
ident = st.sampled_from([None, None, "mailfrom", "mfrom", "helo", "helo", "MAILFROM", "HELO", "none", "pra", "hel"])
hdr = st.tuples(result, ident, st.sampled_from(["%(r)s (example.com: domain of test@example.com)%(i)s", "%(r)s%(i)s", "%(r)s (x)\n\t%(i)s", "%(r)s%(i)s; client-ip=1.2.3.4", "%(r)s (y) receiver=mx%(i)s;"]), st.sampled_from([True] * 7 + [False])).map(list)
relay = st.tuples(st.sampled_from(IPS), st.sampled_from(HOSTS + HOSTS + ["localhost"]), st.one_of(st.none(), st.tuples(st.sampled_from(["joe", "ann"]), st.sampled_from(HOSTS)).map("@".join))).map(list)
GLOBS = ["joe@strict.example", "*@strict.example", "strict.example", "JOE@Strict.Example", "*@soft.example", "*@s?ft.example", "joe@*", "*@*.example", "open.example", "joe@strict", "nodots", "*@open.exampl", "*open.example", "oe@strict.example", "*@mail.strict.example"]
case_st = st.fixed_dictionaries(dict(hdrs=st.lists(hdr, max_size=4), auth=st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(RESULTS + ["hardfail"]), st.integers(0, 4), st.sampled_from([None, "mailfrom", "mfrom", "helo"])).map(list)), relays=st.lists(relay, max_size=3), trusted=st.sampled_from([None, None, "192.0.2.7", "192.0.2.0/24"]), ignore=st.booleans(), newest=st.sampled_from([None, 0, 1]), white=st.lists(st.sampled_from(GLOBS), max_size=3), dwhite=st.lists(st.sampled_from(GLOBS), max_size=3), two=st.booleans()))


def spell(r):
    return SPELL[r[1]](r[0])


def evaluate(domain, ip):
    if domain in FAULTS:
        return "none" if FAULTS[domain] == "noanswer" else "temperror"
    rec = RECORDS.get(domain, "")
    if not rec.startswith("v=spf1"):
        return "none"
    if "bogus" in rec:
        return "permerror"
    a = ipaddress.ip_address(ip)
    for term in rec.split()[1:]:
        if term[0] == "i":
            n = ipaddress.ip_network(term[4:])
            if n.version == a.version and a in n:
                return "pass"
        else:
            return {"-": "fail", "~": "softfail", "?": "neutral", "+": "pass"}[term[0]]
    return "neutral"


def glob(pattern, address):
    if "@" not in pattern:
        if not re.search(r"[?.]", pattern):
            return False
        pattern = "*@" + pattern
    rx = "".join({"*": ".*", "?": ".?"}.get(c, re.escape(c)) for c in pattern.lower())
    return re.match("(?:%s)\\Z" % rx, address.lower()) is not None


def header(h):
    if not h[3]:
        return "Received-SPF: unknown (no result) identity=helo"
    return "Received-SPF: " + h[2] % dict(r=spell(h[0]), i="" if h[1] is None else " identity=" + h[1])


def rcvd(r):
    return "Received: from %s ([%s]) by test.example.net%s" % (r[1], r[0], " (envelope-from <%s>)" % r[2] if r[2] else "")


def body(case, w, note):
    lines = ["loadplugin oa.plugins.spf.SpfPlugin", "ignore_received_spf_header %d" % case["ignore"]]
    if case["newest"] is not None:
        lines.append("use_newest_received_spf_header %d" % case["newest"])
    for key, opt in (("white", "whitelist_from_spf"), ("dwhite", "def_whitelist_from_spf")):
        lines += ["%s %s" % (opt, x) for x in case[key]]
    lines.append("trusted_networks %s" % (case["trusted"] or "203.0.113.77"))
    for x in RESULTS:
        lines += ["header M_%s eval:check_for_spf_%s()" % (x.upper(), x), "header H_%s eval:check_for_spf_helo_%s()" % (x.upper(), x)]
    lines += ["header W eval:check_for_spf_whitelist_from()", "header D eval:check_for_def_spf_whitelist_from()"]
    head = [rcvd(r) for r in case["relays"]]
    pos = 1 if len(head) > 1 else 0
    head[pos:pos] = [header(h) for h in case["hdrs"]]
    if case["auth"]:
        head.append("Authentication-Results: mx.example.net;\n\tspf=%s (cause)%s; dkim=none" % (spell(case["auth"]), " smtp.%s=joe@x.example" % case["auth"][2] if case["auth"][2] else ""))
    raw = "\n".join(head + ["From: ann@nowhere.example", "Subject: hi"]) + "\n\ntext\n"
    table = [[d, "TXT", ['"%s"' % r]] for d, r in RECORDS.items()] + [[d, t, f] for d, f in FAULTS.items() for t in ("TXT", "SPF")]
    before = "Received-SPF: neutral (x) identity=helo\nReceived-SPF: softfail (x)\n" + rcvd(["203.0.113.9", "strict.example", "joe@strict.example"]) + "\nFrom: a@b.example\n\nx\n"
    msgs = [before, raw] if case["two"] else [raw]
    res = w.call("net.scan", dict(files=[["a.cf", "\n".join(lines) + "\n"]], msgs=msgs, table=table, spf=True, want=["relays"]))[-1]
    check("exc" not in res, "scanning raised", out=res, raw=raw)
    # model
    mail = helo = None
    if not case["ignore"]:
        hs = case["hdrs"] if case["newest"] else case["hdrs"][::-1]
        for h in hs:
            if not h[3]:
                continue
            i = (h[1] or "mailfrom").lower()
            if i in ("mailfrom", "mfrom"):
                mail = mail or h[0][0]
            elif i == "helo":
                helo = helo or h[0][0]
        if not case["hdrs"] and case["auth"]:
            r = case["auth"][0].replace("hardfail", "fail")
            if case["auth"][2] == "helo":
                helo = r
            else:
                mail = r
    told = (mail, helo)
    nets = [ipaddress.ip_network(case["trusted"])] if case["trusted"] else []
    ext = list(case["relays"])
    while ext and any(ipaddress.ip_address(ext[0][0]) in n for n in nets if n.version == ipaddress.ip_address(ext[0][0]).version):
        ext.pop(0)
    check_eq([r["ip"] for r in res["external"]], [r[0] for r in ext], "external relays", raw=raw)
    evald = (None, None)
    sender = ""
    if ext:
        ip, name, sender = ext[0]
        sender = sender or ""
        evald = (evaluate(sender.split("@")[1], ip) if sender else None, evaluate(name, ip) if "." in name else None)
        mail = mail or evald[0]
        helo = helo or evald[1]
    elif case["relays"]:
        sender = case["relays"][-1][2] or ""
    want = set()
    if mail:
        want.add("M_" + mail.upper())
    if helo:
        want.add("H_" + helo.upper())
    for key, name in (("white", "W"), ("dwhite", "D")):
        if mail == "pass" and sender and any(glob(p, sender) for p in case[key]):
            want.add(name)
    note.event("mail %s" % mail)
    note.event("helo %s" % helo)
    note.event("whitelisted %s" % ("W" in want or "D" in want))
    check_eq(sorted(res["tests"]), sorted(want), "SPF rules", raw=raw, lines=lines, seen=res["seen"])
    asked = {n for n, t in res["seen"]}
    allowed = set()
    if ext and told[0] is None and sender:
        allowed.add(sender.split("@")[1])
    if ext and told[1] is None:
        allowed.add(ext[0][1])
    check(asked <= allowed, "queries for other names", asked=sorted(asked), allowed=sorted(allowed), raw=raw)
    note.nontrivial(bool(mail and helo) or any(a and b and a != b for a, b in zip(told, evald)))


FACETS = [Facet("spf", case_st, body, quick=900)]
