"""N02: relays are split into trusted/untrusted and internal/external along the path."""
import ipaddress
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "N02"
RULE = ("cases are generated relay paths (Received headers of several MTA forms, optionally originating-IP headers) x trusted/internal/msa networks x authentication placement; every list, the intl/msa marks and the tags are compared with a fold over the path; "
        "non-trivial = the path has a trusted and an untrusted relay, or an internal relay and an external trusted one")
ASSUMPTIONS = ["membership of an address in a network list is N01's subject: the lists here are plain CIDR networks", "private without configured networks means Python's is_private"]
POOL = ["10.0.0.1", "10.0.1.2", "192.168.3.4", "172.16.9.9", "172.32.0.1", "8.8.8.8", "8.8.4.4", "9.9.9.9", "93.184.216.34", "127.0.0.1", "2a00:1450::1", "fd00::5", "::1"]
NETS = ["10.0.0.0/16", "10.0.1.0/24", "192.168.0.0/16", "8.8.0.0/16", "8.8.4.4/32", "9.9.9.9/32", "93.184.216.0/24", "2a00:1450::/32", "fd00::/8", "0.0.0.0/0", "!8.8.4.0/24", "!10.0.1.0/24"]
hop = st.fixed_dictionaries(dict(ip=st.sampled_from(POOL), auth=st.sampled_from(["", "", "", "ESMTPSA", "ASMTP"]), form=st.sampled_from(["postfix", "exim", "noip", "skip"]) | st.just("postfix"), env=st.booleans()))
nets = st.lists(st.sampled_from(NETS), max_size=3)
case_st = st.fixed_dictionaries(dict(hops=st.lists(hop, max_size=6), trusted=nets, internal=nets, msa=st.lists(st.sampled_from(NETS[:9]), max_size=2) | st.just([]), origin=st.lists(st.tuples(st.sampled_from(["X-Originating-IP", "X-Yahoo-Post-IP", "X-Other"]), st.sampled_from(POOL)), max_size=2), horder=st.permutations(["X-Originating-IP", "X-Yahoo-Post-IP"]).map(lambda l: l), hcount=st.integers(0, 2)))


def inside(ip, nets):
    addr = ipaddress.ip_address(ip)
    for n in nets:
        net = ipaddress.ip_network(n.lstrip("!"))
        if net.version == addr.version and addr in net:
            return not n.startswith("!")
    return False


def body(case, w, note):
    headers, path = [], []
    for i, h in enumerate(case["hops"]):
        proto = h["auth"] or "ESMTP"
        ip = h["ip"]
        br = "IPv6:" + ip if ":" in ip else ip
        if h["form"] == "postfix":
            headers.append("from helo%d.example.com (rdns%d.example.net [%s])\n\tby mx%d.example.org (Postfix) with %s id ID%d;\n\tMon, 1 Feb 2016 10:00:00 +0000" % (i, i, br, i, proto, i))
            path.append(dict(ip=ip, auth=h["auth"], rdns="rdns%d.example.net" % i, helo="helo%d.example.com" % i, by="mx%d.example.org" % i, id="ID%d" % i))
        elif h["form"] == "exim":
            headers.append("from rdns%d.example.net ([%s] helo=helo%d.example.com)\n by mx%d.example.org with %s (Exim 4.85)%s id ID%d" % (i, br, i, i, proto.lower(), "\n (envelope-from <user%d@example.com>)" % i if h["env"] else "", i))
            path.append(dict(ip=ip, auth=h["auth"].lower(), rdns="rdns%d.example.net" % i, helo="helo%d.example.com" % i, by="mx%d.example.org" % i, id="ID%d" % i, envfrom="user%d@example.com" % i if h["env"] else ""))
        elif h["form"] == "noip":
            headers.append("from host%d.example.com by mx%d.example.org with ESMTP id ID%d" % (i, i, i))
            path.append(dict(ip=""))
        else:
            headers.append("from root by server%d.example.com with local-example (Exim 4.80) id ID%d for user@example.com" % (i, i))
    order = case["horder"][:case["hcount"]]
    for name in order:
        for n, ip in case["origin"]:
            if n == name:
                path.append(dict(ip=ip, auth=""))
    raw = "".join("Received: %s\n" % h for h in headers) + "".join("%s: [%s]\n" % (n, ip) for n, ip in case["origin"]) + "From: a@example.com\nSubject: x\n\nbody\n"
    conf = ["report T=_RELAYSTRUSTED_|", "report U=_RELAYSUNTRUSTED_|", "report I=_RELAYSINTERNAL_|", "report E=_RELAYSEXTERNAL_|", "report L=_LASTEXTERNALIP_ _LASTEXTERNALRDNS_ _LASTEXTERNALHELO_|"]
    for k in ("trusted", "internal", "msa"):
        if case[k]:
            conf.append("%s_networks %s" % (k, " ".join(case[k])))
    if order:
        conf.append("originating_ip_headers %s" % " ".join(order))
    loop = ["127.0.0.0/8", "::1/128"]
    tnet = loop + case["trusted"] + case["internal"]
    inet = loop + (case["internal"] or case["trusted"])
    configured = bool(case["trusted"] or case["internal"] or case["msa"])
    res = w.call("core.scan", dict(files=[["a.cf", "\n".join(conf) + "\n"]], msgs=[raw], want=["relays", "report"]))
    check(res["load_exc"] is None and "exc" not in res["results"][0], "failed", res=res, conf=conf)
    out = res["results"][0]
    check_eq([r["ip"] for r in out["received"]], [p["ip"] for p in path], "relay addresses along the path", message=raw)
    trusted = internal = True
    msa = False
    exp = dict(trusted=[], untrusted=[], internal=[], external=[])
    for i, p in enumerate(path):
        if not p["ip"]:
            continue
        mark = 0
        if trusted and not msa:
            if configured:
                if not inside(p["ip"], tnet) and not p["auth"]:
                    trusted = internal = False
                else:
                    if internal and not p["auth"] and not inside(p["ip"], inet):
                        internal = False
                    if inside(p["ip"], case["msa"]):
                        mark, msa = 1, True
            elif not ipaddress.ip_address(p["ip"]).is_private and not p["auth"]:
                trusted = internal = False
        item = [i, int(internal), mark]
        exp["trusted" if trusted else "untrusted"].append(item)
        exp["internal" if internal else "external"].append(item)
    for k in exp:
        check_eq([[r["ip"], r["intl"], r["msa"]] for r in out[k]], [[path[i]["ip"], a, b] for i, a, b in exp[k]], "%s relays" % k, conf=conf, message=raw)
        check_eq([[r["rdns"], r["helo"], r["by"], r["id"], r["auth"], r["envfrom"]] for r in out[k]], [[path[i].get(x, "") for x in ("rdns", "helo", "by", "id", "auth", "envfrom")] for i, a, b in exp[k]], "fields of the %s relays" % k, conf=conf, message=raw)

    def tag(k):
        return " ".join("[ ip=%s rdns=%s helo=%s by=%s ident= envfrom=%s intl=%d id=%s auth=%s msa=%d ]" % (path[i]["ip"], path[i].get("rdns", ""), path[i].get("helo", ""), path[i].get("by", ""), path[i].get("envfrom", ""), a, path[i].get("id", ""), path[i]["auth"], b) for i, a, b in exp[k])
    first = path[exp["external"][0][0]] if exp["external"] else None
    last = " ".join(first.get(k, "") for k in ("ip", "rdns", "helo")) if first else "@@LASTEXTERNALIP@@ @@LASTEXTERNALRDNS@@ @@LASTEXTERNALHELO@@"
    want = "T=%s|\nU=%s|\nI=%s|\nE=%s|\nL=%s|\n" % (tag("trusted"), tag("untrusted"), tag("internal"), tag("external"), last)
    check_eq(out["report"], want, "relay tags", conf=conf, message=raw)
    note.nontrivial(bool(exp["trusted"] and exp["untrusted"]) or bool(exp["internal"] and len(exp["trusted"]) > len(exp["internal"])))
    note.event(*(["msa"] if msa else []), *(["external-trusted"] if len(exp["trusted"]) > len(exp["internal"]) else []), "configured" if configured else "default")


FACETS = [Facet("path", case_st, body, quick=2500)]
