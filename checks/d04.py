"""D04: TELL routes exactly the requested report/revoke actions."""
import re
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "D04"
RULE = ("cases are generated sequences of TELL requests (Set / Remove / Message-class in every combination, header order, letter case, spacing, target lists with known, repeated and unknown targets, messages with non-ASCII bytes) mixed with CHECK requests, on a server with one to three recording plugins; calls received by every plugin, arguments of the context's hooks and the reply lines are compared with a model; "
        "non-trivial = a request sets or removes something and another one does neither, or one does both")
ASSUMPTIONS = ["a missing Message-class means spam", "the class and targets are observed as the arguments of GlobalContext.hook_report / hook_revoke (the plugin hooks take only the message)"]
TARGETS = ["local", "remote", "local,remote", "remote,local", "local, remote", " local ,remote ", "Local", "REMOTE, local", "", "nowhere", "localremote", "local,local", "remote,nowhere", "local;remote", ","]
header = st.one_of(st.tuples(st.sampled_from(["Set", "set", "SET"]), st.sampled_from(TARGETS)), st.tuples(st.sampled_from(["Remove", "remove", "REMOVE"]), st.sampled_from(TARGETS)),
                   st.tuples(st.sampled_from(["Message-class", "message-class", "Message-Class"]), st.sampled_from(["spam", "ham", "SPAM", "Ham"])), st.tuples(st.sampled_from(["User", "X-Other"]), st.sampled_from(["nobody", "set: local"]))).map(list)
req = st.fixed_dictionaries(dict(command=st.sampled_from(["TELL", "TELL", "TELL", "tell", "CHECK"]), headers=st.lists(header, max_size=4, unique_by=lambda h: h[0].lower()), body=st.sampled_from(["Subject: one\n\ntext\n", "Subject: caf\u00e9\n\ntext \u20ac\n", "\n", "Subject: x\n\nset: local\n"]),
                                 length=st.booleans(), sp=st.sampled_from([" ", "", "   "])))
case_st = st.fixed_dictionaries(dict(plugins=st.permutations(["RecA", "RecB", "RecC"]).flatmap(lambda p: st.integers(1, 3).map(lambda n: list(p)[:n])), requests=st.lists(req, min_size=1, max_size=5)))


def body(case, w, note):
    conf = "".join("loadplugin sut.recorder.%s\n" % p for p in case["plugins"]) + "body B_A /text/\n"
    reqs = []
    for r in case["requests"]:
        data = r["body"].encode("utf-8").decode("latin-1")
        h = ["%s:%s%s" % (n, r["sp"], v) for n, v in r["headers"]]
        if r["length"]:
            h.insert(len(h) // 2, "Content-length: %d" % len(data))
        reqs.append(dict(data="%s SPAMC/1.3\r\n%s\r\n%s" % (r["command"], "".join(x + "\r\n" for x in h), data)))
    got = w.call("daemon.tell", dict(files=[["a.cf", conf]], requests=reqs))["replies"]
    acted, idle = 0, 0
    for r, g in zip(case["requests"], got):
        check(g["exc"] is None, "exception in the handler", request=r, exc=g["exc"], tb=g["tb"])
        opts = dict((n.lower(), v.strip()) for n, v in r["headers"])
        calls, lines = [], []
        if r["command"].upper() == "TELL":
            spam = opts.get("message-class", "spam").lower() == "spam"
            for key, hook, call, did in (("set", "hook_report", "report", "DidSet"), ("remove", "hook_revoke", "revoke", "DidRemove")):
                if key in opts:
                    t = [x.strip().lower() for x in opts[key].split(",")]
                    calls.append(["hook", hook, r["body"], spam, "local" in t, "remote" in t])
                    calls += [[call, p, r["body"]] for p in case["plugins"]]
                    lines.append("%s: %s\r\n" % (did, opts[key]))
            check(re.match(r"SPAMD/\S+ 0 EX_OK\r\n", g["reply"]), "no EX_OK reply", request=r, reply=g["reply"])
            check_eq(g["reply"].split("\r\n", 1)[1].rstrip("\r\n"), "".join(lines).rstrip("\r\n"), "DidSet/DidRemove lines", request=r)
            acted += len(lines)
            idle += not lines
        check_eq(g["calls"], calls, "report and revoke hooks called", request=r, plugins=case["plugins"])
        note.event("%d actions" % len(lines))
    note.nontrivial(acted and (idle or acted > 1))


FACETS = [Facet("tell", case_st, body, quick=700)]
