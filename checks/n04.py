"""N04: DNS lookups obey availability and query restrictions."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "N04"
RULE = ("cases are generated dns_query_restriction lists (any letter case, trailing dots, malformed lines), dns_available settings, servers, ports and time limits x sequences of lookups with a stand-in resolver that answers or fails in every way; the queries the resolver saw and the result are compared with a model; "
        "non-trivial = some lookup is restricted or unavailable and another reaches the resolver, or a lookup fails")
ASSUMPTIONS = ["with dns_available test at most three test names are queried, before the first lookup and then before one that comes dns_test_interval or more after the last test; which of them is random", "servers with different ports in one configuration are not generated", "dns_options is not applied by the code and not part of this property"]
LABELS = ["a", "b", "example", "test", "mail", "x-1"]
name = st.lists(st.sampled_from(LABELS), min_size=1, max_size=4).map(lambda l: ".".join(l)).flatmap(lambda s: st.sampled_from([s + ".com", s + ".com", s, s + ".org"]))
casing = lambda s: st.tuples(s, st.sampled_from(["", "", "."]), st.sampled_from(["low", "low", "up", "title"])).map(lambda t: {"low": t[0], "up": t[0].upper(), "title": t[0].title()}[t[2]] + t[1])
restr = st.one_of(st.tuples(st.sampled_from(["allow", "deny", "deny"]), casing(name) | st.sampled_from(["com", "org", "example.com"])), st.tuples(st.sampled_from(["bad"]), st.sampled_from(["deny", "block example.com", "", "allow"]))).map(list)
FAIL = ["nxdomain", "noanswer", "timeout", "noservers", "os", "refused", "value", "form"]
query = st.tuples(casing(name), st.sampled_from(["A", "A", "TXT", "MX"]), st.sampled_from(FAIL) | st.just("ok") | st.just("ok"), st.sampled_from([0, 0, 7, 289, 311, 587, 611, 3607, 90001]), st.booleans()).map(list)
INTERVALS = [(None, 600), ("600", 600), ("300s", 300), ("5m", 300), ("1h", 3600), ("1d", 86400), ("10m", 600)]
server = st.tuples(st.sampled_from(["192.0.2.1", "192.0.2.7", "2001:db8::1", "nonsense"]), st.booleans()).map(list)
case_st = st.fixed_dictionaries(dict(restr=st.lists(restr, max_size=6), queries=st.lists(query, min_size=1, max_size=6), avail=st.sampled_from(["", "", "yes", "no", "test", "test:up.example down.example", "test: down.example", "test: up.example", "test: flap.example", "test:flap.example", "test:flap.example down.example"]), interval=st.sampled_from(INTERVALS).map(list), servers=st.lists(server, max_size=3), port=st.sampled_from([None, None, 53, 5353]), clear=st.booleans(), lifetime=st.sampled_from([None, 3.5, 20]), timeout=st.sampled_from([None, 1, 7.25])))
RESULT = {"A": ["192.0.2.55"], "TXT": ['"some text"'], "MX": ["10 mx.example.com."]}


def body(case, w, note):
    conf, live = [], {}
    for i, (op, val) in enumerate(case["restr"]):
        if case["clear"] and i == len(case["restr"]) // 2:
            conf.append("clear_dns_query_restriction")
            live = {}
        if op == "bad":
            conf.append("dns_query_restriction " + val)
            continue
        conf.append("dns_query_restriction %s %s" % (op, val))
        live[val.rstrip(".").lower()] = op == "deny"
    if case["avail"]:
        conf.append("dns_available " + case["avail"])
    servers, port = [], 53
    if case["interval"][0]:
        conf.append("dns_test_interval " + case["interval"][0])
    for addr, own in case["servers"]:
        own = own or case["port"] is None
        if addr == "nonsense":
            conf.append("dns_server nonsense")
            continue
        conf.append("dns_server %s" % ("[%s]:%d" % (addr, case["port"]) if case["port"] and own and ":" in addr else "%s:%d" % (addr, case["port"]) if case["port"] and own else "[%s]" % addr if ":" in addr else addr))
        servers.append(addr)
        port = case["port"] if own and case["port"] else port
    if case["lifetime"]:
        conf.append("default_dns_lifetime %s" % case["lifetime"])
    if case["timeout"]:
        conf.append("default_dns_timeout %s" % case["timeout"])
    table, seen = [["up.example", "A", ["192.0.2.9"]], ["down.example", "A", "timeout"]], {}
    for q, t, outcome, wait, up in case["queries"]:
        key = (q.lower().rstrip("."), t)
        seen.setdefault(key, outcome)
        table.append([q, t, RESULT[t] if seen[key] == "ok" else seen[key]])
    res = w.call("net.lookups", dict(files=[["a.cf", "\n".join(conf) + "\n"]], table=table, queries=[[q, t, wait, [["flap.example", "A", ["192.0.2.9"] if up else "timeout"]]] for q, t, o, wait, up in case["queries"]]))
    blocked = reached = failed = 0
    now, nexttest, state = 0, 0, None
    for (q, t, o, wait, flap), r in zip(case["queries"], res):
        check("exc" not in r, "a lookup raised", query=[q, t], outcome=o, got=r, conf=conf)
        n = q.rstrip(".").lower()
        parts = n.split(".")
        now += wait
        denied = next((live[".".join(parts[i:])] for i in range(len(parts)) if ".".join(parts[i:]) in live), False)
        test_q = []
        up = not case["avail"].startswith("no")
        if case["avail"].startswith("test") and not denied:
            up = state
            if nexttest <= now:
                up = state = "up.example" in case["avail"] or ("flap.example" in case["avail"] and flap)
                nexttest = now + case["interval"][1]
                names = set(case["avail"].partition(":")[2].split())
                while r["seen"] and len(test_q) < 3 and len(test_q) < len(r["seen"]) and (r["seen"][len(test_q)]["name"] in names or not names) and r["seen"][len(test_q)]["type"] == "A" and not (r["seen"][len(test_q)]["name"] == q):
                    test_q.append(r["seen"][len(test_q)]["name"])
                check(test_q, "availability is tested before the first lookup", got=r, conf=conf)
                check(not names or set(test_q) <= names, "only the configured names are used for the test", got=r)
                if not names:
                    up = state = False
                elif not up:
                    check_eq(sorted(test_q), sorted(names), "names tried before DNS counts as unavailable", got=r)
        rest = r["seen"][len(test_q):]
        for s in r["seen"]:
            if servers:
                check_eq([s["servers"], s["port"]], [servers, port], "name servers", conf=conf)
            check_eq([s["lifetime"], s["timeout"]], [case["lifetime"] or 10.0, case["timeout"] or 2.0], "time limits", conf=conf)
        if denied or not up:
            check_eq(rest, [], "no query for %s" % q, conf=conf)
            check_eq(r["result"], [], "result of a lookup that is not made", conf=conf)
            blocked += 1
            continue
        reached += 1
        check_eq([[s["name"].rstrip("."), s["type"]] for s in rest], [[q.rstrip("."), t]], "query sent", conf=conf)
        ok = seen[(n, t)] == "ok"
        check_eq(r["result"], RESULT[t] if ok else [], "result of %s %s (%s)" % (q, t, o), conf=conf)
        failed += not ok
    note.nontrivial((blocked and reached) or failed)
    note.event(*(["restricted" if live else "open"] + [case["avail"].partition(":")[0] or "default"]))


FACETS = [Facet("lookups", case_st, body, quick=2500)]
