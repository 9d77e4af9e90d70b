"""G08: relay checks judge exactly the relay data."""
import ipaddress
import re
from hypothesis import strategies as st
from checks.g05 import scan
from harness.core import Facet, check, check_eq

PROPERTY = "G08"
RULE = ("cases are generated relay paths (HELO names and addresses, reverse names, addresses public, private and IPv6, receiving hosts), network settings and From addresses; every relay rule is compared with a model over the planted relay data; "
        "non-trivial = at least two rules are expected to match and two not to")
ASSUMPTIONS = ["Received headers are written by Postfix without authentication", "trusted_networks is configured and internal networks are not", "From domains are compared with host names that end in the domain or do not contain it", "the received trail compares the registered domain of the receiving host with the full reverse name recorded by the next newer relay, as the existing tests pin"]
IPS = ["83.45.21.22", "83.45.21.99", "83.45.99.1", "83.99.1.2", "84.55.21.45", "10.1.2.3", "192.168.7.7", "172.16.0.9", "100.64.1.1", "169.254.3.3", "172.32.0.1", "100.128.0.1", "2001:db8::5", "198.51.100.7", "203.0.113.9"]
HELOS = ["mail.example.com", "example.com", "mx.example.org", "83.45.21.22", "83.45.21.99", "83.45.99.1", "83.99.1.2", "84.55.21.45", "10.1.2.3", "192.168.7.7", "mx.hotmail.com", "hotmail.com", "yahoo.com", "notyahoo.com", "hotmail.com.evil.net", "mail.lycos.co.uk", "cs.com", "abcs.com", "localhost", "drizzle.com"]
RDNS = ["", "mail.example.com", "example.com", "example.org", "mx.example.org", "host", "3com.example.net", "example.net", "foo.example.co.uk", "example.co.uk", "mx.hotmail.com", "hotmail.com", "msn.com"]
BYS = ["mx.example.com", "example.com", "mx.example.org", "example.org", "relay", "1st.example.net", "mx.example.co.uk", "mail.msn.com", "msn.com", "10.0.0.1", "Mx.Example.COM"]
FROMS = ["joe@example.com", "joe@Example.COM", "joe@mx.example.com", "joe@example.org", "joe@badexample.com", "joe@example.net"]
DOMS = ["example.com", "example.org", "EXAMPLE.com", "example.net"]
relay = st.tuples(st.sampled_from(IPS[:5] * 2 + IPS), st.sampled_from(HELOS), st.sampled_from(RDNS[:4] + RDNS), st.sampled_from(BYS[:4] + BYS)).map(list)
TRAIL = ["firm.ie", "bureau.fr", "a-b.de", "example.com", "my-host.example.de", "example.co.uk", "x-y.example.org", "shop.info", "firm.es", "www.firm.ie", "example.net"]


def shape(case):
    """Free relays, or a trail in which most hosts are received by the one that passed them on, or relays that belong to the From domain."""
    kind, picks = case.pop("shape"), case.pop("picks")
    for i, r in enumerate(case["relays"]):
        name, link, prefix = picks[i]
        if kind == "trail":
            r[2] = name
            if i and link:
                r[3] = prefix + case["relays"][i - 1][2]
        elif kind == "own" and link:
            r[2], r[3] = ["mx." + case["frm"].split("@")[1], prefix + case["frm"].split("@")[1]]
    if kind == "own":
        case["doms"][0] = case["frm"].split("@")[1]
    return case


case_st = st.fixed_dictionaries(dict(relays=st.lists(relay, max_size=5), junk=st.booleans(), trusted=st.sampled_from([[], ["83.45.21.22"], ["83.45.0.0/16"], ["10.0.0.0/8", "192.168.7.7"], ["0.0.0.0/0"], ["83.45.21.22", "84.55.21.45"], ["2001:db8::/32", "83.45.21.0/24"]]), frm=st.sampled_from(FROMS), doms=st.lists(st.sampled_from(DOMS), min_size=2, max_size=2), two=st.booleans(), shape=st.sampled_from(["free", "free", "trail", "own"]),
                                     picks=st.lists(st.tuples(st.sampled_from(TRAIL), st.sampled_from([True, True, False]), st.sampled_from(["", "mx.", "mx-1."])), min_size=5, max_size=5))).map(shape)
PRIVATE = [ipaddress.ip_network(x) for x in ("10.0.0.0/8", "127.0.0.0/8", "169.254.0.0/16", "172.16.0.0/12", "192.168.0.0/16", "100.64.0.0/10")]


def v4(s):
    try:
        return ipaddress.IPv4Address(s)
    except ValueError:
        return None


def private(s):
    a = v4(s)
    return a is not None and any(a in n for n in PRIVATE)


def net(a, bits):
    return int(a) >> (32 - bits)


def registered(host):
    parts = host.split(".")
    if not re.search("[a-zA-Z]", host):
        return host
    if len(parts) > 1 and (len(parts[-1]) > 2 or parts[-1] in ("ie", "fr", "de")):
        return ".".join(parts[-2:])
    return ".".join(parts[-3:])


def expected(case):
    nets = [ipaddress.ip_network(n) for n in case["trusted"] or ["192.0.2.1"]]
    split = 0
    while split < len(case["relays"]) and any(ipaddress.ip_address(case["relays"][split][0]) in n for n in nets if n.version == ipaddress.ip_address(case["relays"][split][0]).version):
        split += 1
    every, unt = case["relays"], case["relays"][split:]
    want = {}
    want["check_no_relays()"] = not every
    want["check_all_trusted()"] = bool(every) and not unt
    want["check_for_illegal_ip()"] = want["check_relays_unparseable()"] = False
    numeric = [r for r in unt if v4(r[1]) and not private(r[1])]
    want["check_for_numeric_helo()"] = bool(numeric)
    want["helo_ip_mismatch()"] = any(v4(r[0]) and net(v4(r[0]), 24) != net(v4(r[1]), 24) for r in numeric)
    want["check_for_sender_no_reverse()"] = bool(unt) and "." in unt[-1][2] and not private(unt[-1][0])
    public = [r for r in unt if not private(r[0])]
    want["check_for_no_rdns_dotcom_helo()"] = bool(public) and not public[-1][2] and bool(re.search(r"(^|\.)(lycos\.com|lycos\.co\.uk|hotmail\.com|localhost\.com|excite\.com|caramail\.com|cs\.com|aol\.com|msn\.com|yahoo\.com|drizzle\.com)$", public[-1][1]))
    named = [r for r in unt if re.match(r"\w+([\w.-]+\.)+\w+$", registered(r[3]))]
    want["check_for_forged_received_ip_helo()"] = any(v4(r[1]) and v4(r[0]) and not private(r[1]) and net(v4(r[0]), 16) != net(v4(r[1]), 16) for r in named)
    breaks = 0
    for new, old in zip(unt, unt[1:]):
        by = registered(old[3])
        if old in named and re.match(r"\w+([\w.-]+\.)+\w+$", new[2]) and by != new[2] and not (by == "msn.com" and new[2] == "hotmail.com"):
            breaks += 1
    want["check_for_forged_received_trail()"] = breaks > 1
    for d in sorted(set(case["doms"])):
        for flag in ("true", "false"):
            if case["frm"].split("@")[1].lower() != d.lower():
                exp = False
            else:
                through = any(r[2].lower().endswith(d.lower()) and r[3].lower().endswith(d.lower()) for r in every)
                exp = through == (flag == "true")
            want["check_for_from_domain_in_received_headers('%s', '%s')" % (d, flag)] = exp
    return want


def header(i, r):
    return "Received: from %s (%s [%s])\n\tby %s (Postfix) with ESMTP id AB%d\n\tfor <r@example.org>; Mon, 1 Feb 2016 10:00:00 +0000" % (r[1], r[2] or "unknown", ("IPv6:" if ":" in r[0] else "") + r[0], r[3], i)


def body(case, w, note):
    want = expected(case)
    names = dict(("R%d" % i, k) for i, k in enumerate(sorted(want)))
    lines = ["loadplugin oa.plugins.relay_eval.RelayEval", "trusted_networks %s" % " ".join(case["trusted"] or ["192.0.2.1"])]
    lines += ["header %s eval:%s" % (n, names[n]) for n in sorted(names)]
    head = [header(i, r) for i, r in enumerate(case["relays"])]
    if case["junk"]:
        head.insert(len(head) // 2, "Received: (qmail 12345 invoked by uid 500); 1 Feb 2016 10:00:00 -0000")
    raw = "\n".join(head + ["From: %s" % case["frm"], "Subject: hello"]) + "\n\nsome text\n"
    msgs = [raw] if not case["two"] else ["From: x@example.net\n" + header(0, ["9.9.9.9", "8.8.8.8", "", "x.example.net"]) + "\n\nother\n", raw]
    res = w.call("core.scan", dict(files=[["a.cf", "\n".join(lines) + "\n"]], msgs=msgs, want=["relays"]))
    check(res["load_exc"] is None, "the configuration failed to load", exc=res["load_exc"])
    out = res["results"][-1]
    check("exc" not in out, "scanning raised", out=out)
    check_eq([r["ip"] for r in out["received"]], [r[0] for r in case["relays"]], "relays parsed", raw=raw)
    got = set(out["tests"])
    for n, k in sorted(names.items()):
        note.event("%s %s" % (k.split("(")[0], "hit" if want[k] else "miss"))
        check((n in got) == want[k], "%s %s, expected %s" % (k, "matched" if n in got else "did not match", "a match" if want[k] else "none"), raw=raw, trusted=case["trusted"])
    note.nontrivial(sum(want.values()) >= 2 and sum(not v for v in want.values()) >= 2)


FACETS = [Facet("relays", case_st, body, quick=1000)]
