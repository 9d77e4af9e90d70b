"""G13: external reporters and checkers are consulted only when enabled and fail soft."""
import email
import email.utils
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "G13"
RULE = ("cases are generated switch settings, limits, Pyzor servers with answers and failures, Razor programs (exit codes, missing, hanging, killed, not reading), SpamCop settings, mail exchangers and SMTP failures, messages with ages and sizes, and operations (scan, report, revoke); rules, calls to the services and hooks of other plugins are compared with a model; "
        "non-trivial = a service fails or is switched off, while another one is contacted")
ASSUMPTIONS = ["the Pyzor client library is replaced at BatchClient and SMTP at smtplib.SMTP", "ages keep a day of distance from the limit of two days, since time zones are not taken into account"]
SERVERS = ["one.example:24441", "two.example:24441", "three.example:1"]
answer = st.one_of(st.tuples(st.integers(0, 8), st.integers(0, 2)).map(lambda t: {"Count": str(t[0]), "WL-Count": str(t[1] - 1 if t[1] else 0), "Code": "200"}), st.tuples(st.integers(3, 8), st.just(0)).map(lambda t: {"Count": str(t[0]), "WL-Count": "0"}),
                   st.sampled_from(["timeout", "value", "key", "runtime", {}, {"Count": "many", "WL-Count": "0"}, {"Count": "9"}]))
KINDS = [0, 0, 0, 1, 1, 2, 255, "missing", "notexec", "killed", "deaf", "noisy"]
AGES = [("1500000000", True)]
DATES = {"now": 0, "hour": 3600, "day": 86400, "three": 3 * 86400, "month": 30 * 86400, "future": -86400}
case_st = st.fixed_dictionaries(dict(
    pyzor=st.booleans(), pmax=st.sampled_from([None, 1, 3, 5, 8]), servers=st.one_of(st.none(), st.lists(st.sampled_from(SERVERS), min_size=1, max_size=3, unique=True)), answers=st.lists(answer, min_size=3, max_size=3), ptimeout=st.sampled_from([None, 2, 1.5]),
    razor=st.booleans(), check=st.sampled_from(KINDS), report=st.sampled_from(KINDS), revoke=st.sampled_from(KINDS), conf=st.sampled_from([None, "/etc/razor.conf"]), hang=st.sampled_from([False] * 40 + [True]),
    dont=st.sampled_from([None, None, "0", "1"]), to=st.sampled_from([None, "sc@spamcop.example", "sc@spamcop.example", "nobody", "@x"]), frm=st.sampled_from([None, "me@home.example"]), size=st.sampled_from([None, 1]),
    mx=st.sampled_from([["10 mx.spamcop.example."], ["10 mx.spamcop.example."], ["0 mail.a.b.c.", "20 other.example."], "nxdomain", "timeout", []]), smtp=st.sampled_from([None, None, None, "connect", "helo", "sendmail", "quit"]),
    date=st.sampled_from(sorted(DATES) + ["now", "hour", None, "bad", "nodate"]), length=st.sampled_from([3, 3, 1000, 1100, 3000]), nonascii=st.booleans(), crlf=st.booleans(),
    order=st.integers(0, 5), ops=st.lists(st.sampled_from(["scan", "report", "revoke", "scan+report"]), min_size=1, max_size=2)))


def body(case, w, note):
    import itertools
    plugs = ["oa.plugins.pyzor.PyzorPlugin", "oa.plugins.razor2.Razor2Plugin", "oa.plugins.spam_cop.SpamCopPlugin"]
    plugs = list(list(itertools.permutations(plugs))[case["order"]])
    plugs.insert(case["order"] % 4, "sut.recorder.RecA")
    plugs.append("sut.recorder.RecB")
    servers = case["servers"] or ["public.pyzor.org:24441", "oa.pyzor.org:24441"]
    answers = dict(zip(servers, case["answers"]))
    opts = [("use_pyzor", int(case["pyzor"])), ("pyzor_max", case["pmax"]), ("pyzor_servers", case["servers"] and ",".join(case["servers"])), ("pyzor_timeout", case["ptimeout"]),
            ("use_razor2", int(case["razor"])), ("razor_config", case["conf"]), ("razor_timeout", 1 if case["hang"] else None),
            ("dont_report_to_spamcop", case["dont"]), ("spamcop_to_address", case["to"]), ("spamcop_from_address", case["frm"]), ("spamcop_max_report_size", case["size"])]
    lines = ["loadplugin " + p for p in plugs] + ["%s %s" % (k, v) for k, v in opts if v is not None]
    lines += ["full PYZOR eval:check_pyzor()", "body MIDDLE /body/", "full RAZOR eval:check_razor2()", "full RAZOR_AGAIN eval:check_razor2()", "body LAST /body/"]
    head = []
    if case["date"] == "nodate":
        head.append("Received: from a.example by b.example")
    elif case["date"] == "bad":
        head.append("Received: from a.example by b.example; the other day")
    elif case["date"]:
        head.append("Received: from a.example by b.example; " + email.utils.formatdate(1500000000 - DATES[case["date"]]))
    raw = "\n".join(head + ["Subject: test", "", "body text" + (" \xe9\u20ac" if case["nonascii"] else "")] + ["x" * 49 for _ in range(case["length"] // 50)]) + "\n"
    if case["crlf"]:
        raw = raw.replace("\n", "\r\n")
    progs = {"razor-check": "hang" if case["hang"] else case["check"], "razor-report": case["report"], "razor-revoke": case["revoke"]}
    sent, raw = raw, raw.replace("\r\n", "\n")
    to = case["to"] or "spamassassin-submit@spam.spamcop.net"
    res = w.call("services.run", dict(files=[["a.cf", "\n".join(lines) + "\n"]], raw=sent, ops=case["ops"], pyzor=answers, razor=progs, smtp=case["smtp"], dns=[[to.rpartition("@")[2], "MX", case["mx"]]]))
    check_eq(res["client"], [["init", 3.5 if case["ptimeout"] is None else case["ptimeout"]]], "Pyzor client", lines=lines)
    pmax = 5 if case["pmax"] is None else case["pmax"]
    for op, r in zip(case["ops"], res["results"]):
        info = dict(op=op, lines=lines, answers=answers, programs=progs, raw=raw[:300])
        check("exc" not in r, "the operation completes", exc=r.get("exc"), **info)
        pyzor, razor, tests = [], [], []
        failed = contacted = False
        if op.startswith("scan"):
            tests = ["MIDDLE", "LAST"]
            if case["pyzor"]:
                for s in servers:
                    pyzor.append(["check", s])
                    a = answers[s]
                    ok = isinstance(a, dict) and a.get("Count", "x").isdigit() and "WL-Count" in a
                    failed = failed or not ok
                    contacted = True
                    if ok and int(a["Count"]) >= pmax and a["WL-Count"] == "0":
                        tests.append("PYZOR")
                        break
            if case["razor"]:
                kind = progs["razor-check"]
                contacted = True
                failed = failed or kind not in (0, 1, "deaf", "noisy")
                if kind not in ("missing", "notexec"):
                    razor.append("razor-check")
                if kind in (0, "noisy", "deaf"):
                    tests += ["RAZOR", "RAZOR_AGAIN"]
        check_eq(sorted(r["tests"]), sorted(tests), "rules that match", **info)
        check_eq([x for x in r["evaluated"] if x in ("MIDDLE", "LAST")], ["MIDDLE", "LAST"] if op.startswith("scan") else [], "the other rules are evaluated", **info)
        mails = []
        hooks = []
        if op != "scan":
            what = "revoke" if op == "revoke" else "report"
            if case["pyzor"]:
                pyzor += [["whitelist" if what == "revoke" else "report", s] for s in servers]
                contacted = True
                failed = failed or any(not isinstance(answers[s], dict) for s in servers)
            if case["razor"]:
                contacted = True
                kind = progs["razor-" + what]
                failed = failed or kind not in (0, 1, "deaf", "noisy")
                if kind not in ("missing", "notexec"):
                    razor.append("razor-" + what)
            hooks = [[what, "RecA"], [what, "RecB"]]
            if what == "report" and case["dont"] != "1" and to not in ("nobody", "@x") and case["date"] in DATES and DATES[case["date"]] < 2 * 86400 and isinstance(case["mx"], list) and case["mx"]:
                mails = ["connect", "helo", "sendmail", "quit"]
                contacted = True
                if case["smtp"]:
                    failed = True
                    mails = mails[:mails.index(case["smtp"]) + 1]
        check_eq([[c[0], ":".join(c[2])] for c in r["pyzor"]], pyzor, "calls to Pyzor", **info)
        check(len(set(c[1] for c in r["pyzor"])) <= 1, "one digest for all Pyzor calls", calls=r["pyzor"])
        names = [c[0] for c in r["razor"]]
        # a rule that failed may be asked again for the second rule
        check_eq([n for i, n in enumerate(names) if i == 0 or names[i - 1] != n], razor, "Razor programs run", calls=[c[:2] for c in r["razor"]], **info)
        for prog, args, text in r["razor"]:
            check_eq(args, "-conf=" + case["conf"] if case["conf"] else "", "arguments of " + prog, **info)
            if progs[prog] != "deaf":
                check_eq(text, raw, "message given to " + prog, **info)
        check_eq(r["hooks"], hooks, "hooks of the other plugins", **info)
        check_eq([c[0] for c in r["smtp"]], mails, "SMTP conversation with SpamCop", date=case["date"], mx=case["mx"], to=to, fault=case["smtp"], **info)
        for c in r["smtp"]:
            if c[0] == "connect":
                check(c[1] in [m.split()[1].rstrip(".") for m in case["mx"]], "host of the mail exchanger", call=c, mx=case["mx"])
            elif c[0] == "sendmail":
                check_eq(c[1:3], [case["frm"] or "", to], "envelope of the report")
                m = email.message_from_string(c[3])
                parts = [p for p in m.walk() if p.get_content_type().startswith("message/rfc822")]
                check_eq(len(parts), 1, "messages attached to the report", text=c[3])
                limit = (50 if case["size"] is None else case["size"]) * 1024
                want = raw if len(raw) <= limit else raw[:limit]
                text = c[3].replace("\r\n", "\n").replace("\r", "\n")
                want = want.replace("\r\n", "\n").replace("\r", "\n")
                check(want.strip("\n") in text, "the report holds the message", want=want[:300], text=text[:1500], limit=limit)
                check_eq("[truncated" in text, len(raw) > limit, "truncation notice", length=len(raw), limit=limit)
                check(len(raw) <= limit or raw[:limit + 40].replace("\r\n", "\n") not in text, "the report is truncated")
        note.nontrivial(contacted and (failed or not case["razor"] or not case["pyzor"]))
        note.event(op)


FACETS = [Facet("services", case_st, body, quick=600)]
