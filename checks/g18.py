"""G18: the countries of the relays."""
import email
import ipaddress
import re
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "G18"
RULE = ("cases are generated country databases in the legacy format (nested networks of both versions; missing, damaged and other files) with messages whose Received headers name addresses in, at the edge of and outside these networks; the tag and the header are compared with a longest-match lookup; "
        "non-trivial = a public address inside a listed network of a usable database, or a public address while a database can't be used")
ASSUMPTIONS = ["no message has a header X-Relay-Countries of its own, except in the facet about those"]
CODES = "GB US RO DE FR CN RU BR ZA JP AU EU A1 A2 O1".split()
RELAY = "Received: from h%d.example.com (h%d.example.com [%s]) by mx%d.example.org (Postfix) with ESMTP id ABC%d for <r@example.org>; Mon, 1 Feb 2016 10:00:00 +0000"


@st.composite
def network(draw, version):
    bits = 32 if version == 4 else 128
    length = draw(st.sampled_from([3, 8, 12, 16, 20, 24, 28, 31, 32] if version == 4 else [4, 16, 23, 32, 48, 64, 96, 127, 128]))
    if version == 4:
        value = (draw(st.sampled_from([5, 8, 20, 62, 130, 178, 193, 203, 222])) << 24) + (draw(st.sampled_from([0, 1, 127, 128, 255])) << 16) + (draw(st.sampled_from([0, 3, 128, 255])) << 8) + draw(st.sampled_from([0, 1, 128, 254, 255]))
    else:
        value = (draw(st.sampled_from([0x2a01, 0x2a02, 0x2600, 0x2400, 0x2c0f])) << 112) + (draw(st.sampled_from([0, 1, 0x8000, 0xffff])) << 96) + (draw(st.sampled_from([0, 1, 0xffff])) << 64) + draw(st.sampled_from([0, 1, 255, 2 ** 64 - 1]))
    return str(ipaddress.ip_network((value, length), strict=False))


@st.composite
def scans(draw):
    dbs = {}
    for version in (4, 6):
        nets = [[n, draw(st.sampled_from(CODES))] for n in draw(st.lists(network(version), min_size=1, max_size=5, unique=True))]
        dbs[version] = nets if draw(st.integers(0, 3)) else draw(st.sampled_from([None, None, "directory", "empty", "short", "text", "zeros", "city", "cut", "org", []]))
    near = []
    for version in (4, 6):
        for net, code in dbs[version] if isinstance(dbs[version], list) else []:
            net = ipaddress.ip_network(net)
            first, last = int(net.network_address), int(net.broadcast_address)
            near += [str(ipaddress.ip_address(v) if version == 4 else ipaddress.IPv6Address(v)) for v in (first, last, first - 1, last + 1, (first + last) // 2) if 0 < v < 2 ** (32 if version == 4 else 128)]
    other = ["10.0.0.1", "192.168.3.4", "172.16.0.9", "127.0.0.1", "169.254.1.1", "8.8.8.8", "195.5.6.7", "2a01::1", "2600::", "fd00::1", "fe80::1", "::1", "1.1.1.1", "223.255.255.1", "172.32.0.1", "11.0.0.1"]
    ip = st.one_of(st.sampled_from(near), st.sampled_from(near), st.sampled_from(other)) if near else st.sampled_from(other)
    return dict(v4=dbs[4], v6=dbs[6], msgs=draw(st.lists(st.lists(ip, max_size=5), min_size=1, max_size=4)), forged=draw(st.integers(0, 4)) == 0)


def country(ip, dbs):
    ip = ipaddress.ip_address(ip)
    if ip.is_private:
        return "**"
    db = dbs["v%d" % ip.version]
    if not isinstance(db, list):
        return "XX"
    best = max([(ipaddress.ip_network(n).prefixlen, c) for n, c in db if ip in ipaddress.ip_network(n)] or [(0, "XX")])
    return best[1]


def tag_of(text):
    m = email.message_from_string(text)
    return m["X-Spam-Countries"]


def body(case, w, note):
    codes = sorted(set(CODES) | {"XX", "**"})
    conf = ["add_header all Countries [_RELAYCOUNTRY_]", "header __ANY X-Relay-Countries =~ /\\S/", "meta ANY __ANY"]
    conf += ["header C_%d X-Relay-Countries =~ /(?:^|\\s)%s(?:\\s|$)/" % (i, re.escape(c)) for i, c in enumerate(codes)]
    exact = [" ".join(country(ip, case) for ip in ips) for ips in case["msgs"]]
    conf += ["header E_%d X-Relay-Countries =~ /^%s$/" % (i, re.escape(e)) for i, e in enumerate(exact)]
    raws = []
    for ips in case["msgs"]:
        head = [RELAY % (i, i, ("IPv6:" if ":" in ip else "") + ip, i, i) for i, ip in enumerate(ips)]
        if case["forged"]:
            head.append("X-Relay-Countries: ZZ QQ")
        raws.append("\n".join(head + ["Subject: x", "From: a@example.com", "", "text", ""]))
    got = w.call("geo.scan", dict(v4=case["v4"], v6=case["v6"], conf=conf, msgs=raws))
    check("exc" not in got, "the configuration can't be loaded", got=got)
    for n, (ips, r) in enumerate(zip(case["msgs"], got["results"])):
        check(not r["exc"], "the scan fails", ips=ips, got=r["exc"])
        want = [country(ip, case) for ip in ips]
        if ips:
            check_eq(tag_of(r["adjusted"]), "[%s]" % " ".join(want), "tag", ips=ips)
        tests = set(r["tests"])
        check_eq(sorted(codes[int(t[2:])] for t in tests if t.startswith("C_")), sorted(set(want)), "countries that rules see", ips=ips)
        check_eq("ANY" in tests, bool(ips) or case["forged"], "header present", ips=ips)
        if ips and not case["forged"]:
            check("E_%d" % n in tests, "the header is the countries in the order of the headers", ips=ips, want=exact[n], tests=sorted(tests))
        for ip, c in zip(ips, want):
            note.event("private" if c == "**" else "unknown" if c == "XX" else "found")
            a = ipaddress.ip_address(ip)
            note.nontrivial(c not in ("**", "XX") or (c == "XX" and not isinstance(case["v%d" % a.version], list)))


FACETS = [Facet("scans", scans(), body, 250)]
