"""N05: DNSBL rules query the reversed untrusted addresses and honour the mask."""
import ipaddress
import re
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "N05"
RULE = ("cases are generated relay paths (IPv4, IPv6, relays without address), trusted networks, DNSBL rules of every kind with zones, sub-tests and masks, sender headers, and the answer table of a stand-in resolver (listings, several answers, failures); the set of queried names and every rule's result are compared with a model; "
        "non-trivial = a rule that makes queries matches and another that makes queries does not")
ASSUMPTIONS = ["the first address of each From header counts", "a rule may stop querying once it matched", "an address sub-test is a regular expression matched at the start of the answer, a check_rbl_sub sub-test a bit mask, as documented", "the envelope sender is M04's subject and taken from the message object"]
ZONES = ["bl.example.org", "zen.example.net", "Multi.Example.COM"]
POOL = ["10.0.0.1", "8.8.8.8", "8.8.4.4", "93.184.216.34", "1.2.3.4", "255.254.253.252", "2a00:1450::1", "2001:db8:0:1:ff:abc:12:3", "127.0.0.1"]
ANS = ["127.0.0.2", "127.0.0.4", "127.0.0.10", "127.0.0.6", "127.0.1.255", "192.0.2.1"]
zone_id = st.sampled_from(["z1", "z2", "z3", "z1-lastexternal", "z2-untrusted", "z3-firsttrusted"])
sub = st.sampled_from([None, None, "127.0.0.2", "127.0.0.[246]$", "127.0.0.1", "127.0.1", ".*255", "127"])
DOM = ["example.com", "sender.example.net", "Spam.Example.org", "nodomain.example"]
rule = st.one_of(
    st.tuples(st.just("check_rbl"), zone_id, st.sampled_from(ZONES), sub), st.tuples(st.just("check_rbl"), zone_id, st.sampled_from(ZONES), sub),
    st.tuples(st.just("check_rbl_txt"), zone_id, st.sampled_from(ZONES), st.sampled_from([None, ".listed", ".*here", "listed"])),
    st.tuples(st.just("check_rbl_sub"), st.sampled_from(["z1", "z2", "z3", "nozone"]), st.just(""), st.sampled_from(["2", "4", "6", "8", "255", "256", "0.0.0.2", "127.0.0.2", "0.0.1.0", "x1"])),
    st.tuples(st.just("check_rbl_sub"), st.sampled_from(["z1", "z2"]), st.just(""), st.sampled_from(["2", "4", "8", "16"])),
    st.tuples(st.sampled_from(["check_rbl_from_host", "check_rbl_from_domain", "check_rbl_envfrom"]), zone_id, st.sampled_from(ZONES), sub),
    st.tuples(st.just("check_rbl_accreditor"), zone_id, st.sampled_from(ZONES), sub.filter(bool)),
    st.tuples(st.just("check_dns_sender"), st.just(""), st.just(""), st.none())).map(list)
hop = st.tuples(st.sampled_from(POOL + [""]), st.sampled_from(["", "", "env@" + DOM[0], "bounce@a--acme.sender.example.net"])).map(list)
addr = st.sampled_from(DOM).flatmap(lambda d: st.sampled_from(["joe", "a.b", "x@y"[:1]]).map(lambda l: "%s@%s" % (l, d)))
answer = st.one_of(st.lists(st.sampled_from(ANS), min_size=1, max_size=3), st.lists(st.sampled_from(ANS), min_size=1, max_size=1), st.sampled_from(["timeout", "noservers", "os"]))
case_st = st.fixed_dictionaries(dict(rules=st.lists(rule, min_size=1, max_size=6), hops=st.lists(hop, max_size=5), trusted=st.sampled_from(["", "", "10.0.0.0/8 8.8.8.0/24", "8.8.0.0/16 !8.8.4.4 10.", "2a00::/16 !1.2.3.4 1.0.0.0/8"]),
    ips=st.lists(st.tuples(st.integers(0, 5), st.sampled_from(ZONES), answer, st.sampled_from(["A", "A", "TXT"])), max_size=8), doms=st.lists(st.tuples(st.sampled_from(DOM), st.sampled_from(ZONES + [""]), answer, st.sampled_from(["A", "A", "MX"])), max_size=5),
    from_=st.lists(st.lists(addr, min_size=1, max_size=2), max_size=2), sender=st.sampled_from(["", "", "s@example.com", "n@nodomain.example", "x@a--acme.sender.example.net"]), acc=st.sampled_from(["", "", "acme", "other, x; acme", "acme2"]), skip=st.sampled_from([0, 0, 0, 0, 1])))


def reverse(ip):
    a = ipaddress.ip_address(ip)
    if a.version == 4:
        return ".".join(reversed(ip.split(".")))
    return ".".join(reversed(a.exploded.replace(":", "")))


TRUST = {"": [], "10.0.0.0/8 8.8.8.0/24": [("10.0.0.0/8", 1), ("8.8.8.0/24", 1)], "8.8.0.0/16 !8.8.4.4 10.": [("8.8.0.0/16", 1), ("8.8.4.4/32", 0), ("10.0.0.0/8", 1)], "2a00::/16 !1.2.3.4 1.0.0.0/8": [("2a00::/16", 1), ("1.2.3.4/32", 0), ("1.0.0.0/8", 1)]}


def trusted(ip, conf):
    a = ipaddress.ip_address(ip)
    for net, yes in [("127.0.0.0/8", 1), ("::1/128", 1)] + TRUST[conf]:
        n = ipaddress.ip_network(net)
        if n.version == a.version and a in n:
            return bool(yes)
    return False


def body(case, w, note):
    headers = []
    for i, (ip, env) in enumerate(case["hops"]):
        headers.append("Received: from r%d.example.com (%shelo=h%d.example.com) by mx%d.example.org with esmtp (Exim 4.85)%s id ID%d; Mon, 1 Feb 2016 10:00:00 +0000" % (i, "[%s] " % ip if ip else "", i, i, " (envelope-from <%s>)" % env if env else "", i))
    if case["sender"]:
        headers.append("X-Sender: %s" % case["sender"])
    for l in case["from_"]:
        headers.append("From: " + ", ".join(l))
    if case["acc"]:
        headers.append("Accreditor: %s" % case["acc"])
    raw = "\n".join(headers + ["Subject: x", "", "body", ""])
    ips = [ip for ip, e in case["hops"] if ip and not trusted(ip, case["trusted"])]
    table = {}
    for i, zone, ans, t in case["ips"]:
        if ips:
            table[(reverse(ips[i % len(ips)]) + "." + zone.lower(), t)] = ans
    for d, zone, ans, t in case["doms"]:
        table[((d + "." + zone if zone else d).lower(), t)] = ans
    rows = []
    for (n, t), ans in sorted(table.items()):
        if isinstance(ans, list) and t == "TXT":
            ans = table[(n, t)] = ['"listed %s here"' % a for a in ans]
        if isinstance(ans, list) and t == "MX":
            ans = table[(n, t)] = ["10 mx.%s." % n]
        rows.append([n, t, ans])
    conf = ["loadplugin oa.plugins.dns_eval.DNSEval", "trusted_networks " + case["trusted"] if case["trusted"] else "skip_rbl_checks 0", "skip_rbl_checks %d" % case["skip"], "envelope_sender_header X-Sender"]
    zones = {}
    for i, (fn, zid, server, test) in enumerate(case["rules"]):
        if fn == "check_rbl_sub":
            args = "'%s', '%s'" % (zid, test)
        elif fn == "check_dns_sender":
            args = ""
        elif fn == "check_rbl_accreditor":
            args = "'%s', '%s', '%s', 'acme'" % (zid, server, test)
        else:
            args = "'%s', '%s%s'" % (zid, server, "." if i % 2 else "") + (", '%s'" % test if test else "")
        if fn not in ("check_rbl_sub", "check_dns_sender"):
            zones[zid.split("-")[0]] = server
        conf.append("header R_%d eval:%s(%s)" % (i, fn, args))
    out = w.call("net.scan", dict(files=[["a.cf", "\n".join(conf) + "\n"]], table=rows, msgs=[raw], want=["from_to"]))[0]
    check("exc" not in out, "failed", out=out, conf=conf)
    sender = out["sender"]
    sdom = sender.rsplit("@", 1)[-1]

    def find(names, t, good):
        hit = False
        for n in names:
            ans = table.get((n.lower(), t))
            hit = hit or (isinstance(ans, list) and any(good(a) for a in ans))
        return hit
    exp, must, may = [], set(), set()
    nontriv = [0, 0]
    for i, (fn, zid, server, test) in enumerate(case["rules"]):
        t = "TXT" if fn == "check_rbl_txt" else "A"
        good = (lambda a, test=test: not test or re.match(test, a) is not None)
        base = ips
        if fn == "check_dns_sender":
            if not sender:
                continue
            a = isinstance(table.get((sdom.lower(), "A")), list)
            mx = isinstance(table.get((sdom.lower(), "MX")), list)
            must.add((sdom.lower(), "A"))
            may |= {(sdom.lower(), "A"), (sdom.lower(), "MX")}
            if not a:
                must.add((sdom.lower(), "MX"))
            if not a and not mx:
                exp.append("R_%d" % i)
            continue
        if fn == "check_rbl_sub":
            if zid not in zones:
                continue
            server = zones[zid]
            try:
                mask = int(test) if test.isdigit() else int(ipaddress.ip_address(test))
            except ValueError:
                continue
            good = (lambda a, mask=mask: int(ipaddress.ip_address(a)) & mask != 0)
        names = ["%s.%s" % (reverse(ip), server.lower()) for ip in ips]
        if fn == "check_rbl_envfrom":
            names = ["%s.%s" % (sdom.lower(), server.lower())] if sender else []
        elif fn in ("check_rbl_from_host", "check_rbl_from_domain"):
            names = ["%s.%s" % (a.rsplit("@", 1)[1].lower(), server.lower()) for l in case["from_"] for a in l[:1]]
        elif fn == "check_rbl_accreditor":
            m = re.search(r"[@.]a--([a-z0-9]{3,})\.", sender, re.I)
            tags = ([m.group(1)] if m else []) + [p.split(",")[0].strip() for p in case["acc"].split(";")]
            if "acme" not in tags:
                names = []
        if case["skip"]:
            continue
        hit = find(names, t, good)
        may |= set((n, t) for n in names)
        if hit:
            exp.append("R_%d" % i)
        else:
            must |= set((n, t) for n in names)
        if names:
            nontriv[hit] += 1
    check_eq(out["tests"], exp, "matching rules", conf=conf, message=raw, table=rows, seen=out["seen"])
    seen = set(map(tuple, out["seen"]))
    check(seen <= may, "queries for other names", extra=sorted(seen - may), conf=conf, message=raw)
    check(must <= seen, "names not queried", missing=sorted(must - seen), conf=conf, message=raw)
    note.nontrivial(nontriv[0] and nontriv[1])
    note.event(*sorted(set(r[0] for r in case["rules"])))


FACETS = [Facet("rules", case_st, body, quick=2500)]
