"""D05: user preferences apply to that user only and only when allowed."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from checks.d01 import split, norm, verdict

PROPERTY = "D05"
RULE = ("cases are generated histories on one server: requests by different users (with and without preferences, without User header, with path-like names), preference files written, changed and removed, site configurations changed and reloaded, with allow_user_rules on or off; every reply is compared with scanning directly with the site files, or the site files followed by that user's preferences; "
        "non-trivial = two users whose preferences differ both ask, or a user's preferences change between two of their requests with a reload in between")
ASSUMPTIONS = ["preferences are re-read after a reload; before it the copy read at the user's first request counts", "a user name containing a path separator has no preferences file", "/home is redirected to a scratch directory by wrapping oa.config.get_userprefs_path"]
SITES = ["loadplugin oa.plugins.wlbl_eval.WLBLEvalPlugin\nloadplugin oa.plugins.short_circuit.ShortCircuit\nloadplugin oa.plugins.free_mail.FreeMail\nbody R_A /tokalpha/\nscore R_A 2\nheader R_WL eval:check_from_in_whitelist()\nscore R_WL -10\nheader R_FM eval:check_freemail_from()\nbody R_B /tokbravo/\n",
         "body R_A /tokalpha/\nbody R_B /tokbravo/\nmeta R_M R_A && R_B\nreport site report _SCORE_\nadd_header all Site _TESTS_\nrequired_score 2.5\n",
         "loadplugin oa.plugins.relay_eval.RelayEval\nheader R_NR eval:check_no_relays()\nscore R_NR 3\nbody R_A /tokalpha/\ndescribe R_A Site description\nrequired_score 4\nreport_safe 0\nreport _SUMMARY_\n",
         "body R_A /tokalpha/\nlang en describe R_A x\nadd_header all Level _STARS(*)_\nrequired_score 1\nclear_report_template\nreport a _REQD_\nloadplugin oa.plugins.replace_tags.ReplaceTags\nreplace_tag TG tok\nreplace_rules R_C\nbody R_C /<TG>alpha/\n"]
LINES = ["score R_A 7", "score R_A -3", "score R_B 4", "required_score 0.5", "required_score 30", "whitelist_from *@example.com", "body R_U /text/", "body R_U /nothere/", "score R_U 5", "describe R_A mine", "add_header all Mine _SCORE_", "clear_headers", "report my own line", "report_safe 0", "report_safe 2", "clear_report_template", "bogus line", "score", "body R_A /tokbravo/",
         "shortcircuit R_A on", "freemail_domains example.com", "replace_tag TG text", "remove_header all Site", "meta R_M R_A || R_B", "allow_user_rules 0", "tflags R_A userconf", "priority R_A 10", "trusted_networks 10.0.0.0/8", "loadplugin oa.plugins.relay_eval.RelayEval", "header R_NR2 eval:check_no_relays()", "use_bayes 0", "unwhitelist_from *@example.com"]
USERS = ["alice", "bob", "carol"]
NAMED = USERS + USERS + ["alice", "bob", "alice", "", "nobody", "alice/../bob", "../home/alice", "@HOME@/bob", "..", ".", "alice/", "Alice", None]
MSGS = ["From: joe@example.com\nSubject: s\n\ntokalpha text\n", "From: joe@example.net\nSubject: t\n\ntokbravo tokalpha\n", "Subject: t\n\nnothing\n"]
prefs = st.lists(st.sampled_from(LINES), max_size=5)
op = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("prefs"), user=st.sampled_from(USERS), lines=st.one_of(prefs, prefs, prefs, st.none()))),
    st.fixed_dictionaries(dict(op=st.just("req"), user=st.sampled_from(NAMED), msg=st.sampled_from(range(len(MSGS))), command=st.sampled_from(["PROCESS", "SYMBOLS", "REPORT"]))),
    st.fixed_dictionaries(dict(op=st.just("req"), user=st.sampled_from(NAMED), msg=st.sampled_from(range(len(MSGS))), command=st.sampled_from(["PROCESS", "PROCESS", "REPORT"]))),
    st.fixed_dictionaries(dict(op=st.just("req"), user=st.sampled_from(USERS), msg=st.sampled_from(range(len(MSGS))), command=st.sampled_from(["PROCESS", "PROCESS", "REPORT"]))),
    st.fixed_dictionaries(dict(op=st.just("site"), site=st.one_of(st.none(), st.sampled_from(range(len(SITES)))), allow=st.sampled_from([True, True, True, False]))))
case_st = st.fixed_dictionaries(dict(site=st.sampled_from(range(len(SITES))), allow=st.sampled_from([True, True, True, True, False]), start=st.lists(prefs, min_size=3, max_size=3), ops=st.lists(op, min_size=5, max_size=12)))


def site_files(i, allow):
    return [["00.pre", "allow_user_rules %d\n" % allow], ["10.cf", SITES[i]], ["20.cf", "body R_LAST /text/\n"]]


def text(lines):
    return "".join(l + "\n" for l in lines)


def body(case, w, note):
    ops = [dict(op="prefs", user=u, text=text(l)) for u, l in zip(USERS, case["start"])]
    disk = dict((u, text(l)) for u, l in zip(USERS, case["start"]))
    cache = {}
    site, allow = case["site"], case["allow"]
    expected = [None] * len(ops)
    seen, changed = {}, False
    for o in case["ops"]:
        if o["op"] == "prefs":
            t = None if o["lines"] is None else text(o["lines"])
            disk[o["user"]] = t
            ops.append(dict(op="prefs", user=o["user"], text=t))
            expected.append(None)
        elif o["op"] == "site":
            if o["site"] is not None:
                site, allow = o["site"], o["allow"]
            ops.append(dict(op="site", files=site_files(site, allow)))
            cache = {}
            expected.append(None)
        else:
            u = o["user"]
            mine = None
            if allow and u in USERS:
                if u not in cache and disk.get(u) is not None:
                    cache[u] = disk[u]
                mine = cache.get(u)
            data = MSGS[o["msg"]]
            ops.append(dict(op="req", data="%s SPAMC/1.2\r\n%sContent-length: %d\r\n\r\n%s" % (o["command"], "" if u is None else "User: %s\r\n" % u, len(data), data)))
            expected.append((site, allow, mine, o["msg"], o["command"], u))
            if mine is not None:
                changed |= u in seen and seen[u] != mine
                seen[u] = mine
    got = w.call("daemon.users", dict(files=site_files(case["site"], case["allow"]), ops=ops))["replies"]
    direct = {}
    history = []
    for o, e, r in zip(ops, expected, got):
        history.append(o)
        if e is None:
            continue
        site, allow, mine, msg, command, u = e
        key = (site, allow, mine, msg)
        if key not in direct:
            files = site_files(site, allow) + ([["user_prefs", mine]] if mine is not None else [])
            res = w.call("core.scan", dict(files=files, msgs=[MSGS[msg]], want=["report", "adjusted"]))
            check(res["load_exc"] is None and "exc" not in res["results"][0], "direct scan failed", res=res)
            direct[key] = res
        res = direct[key]
        out = res["results"][0]
        check(r["exc"] is None, "exception in the handler", exc=r["exc"], tb=r["tb"], history=history)
        status, spam, n, textb = split(r["reply"])
        info = dict(user=u, site=SITES[site], prefs=mine, history=history)
        check_eq(spam, verdict(out, res["required_score"]), "Spam line", **info)
        exp = {"PROCESS": out["adjusted"], "SYMBOLS": ",".join(out["tests"]), "REPORT": out["report"]}[command]
        check_eq(norm(textb.decode("utf-8")), norm(exp), "body of the %s reply" % command, **info)
        note.event("own preferences" if mine is not None else "site", "allowed" if allow else "not allowed")
    note.nontrivial(len(set(seen.values())) > 1 or changed)


FACETS = [Facet("users", case_st, body, quick=600)]
