"""D06: reloading the daemon takes effect completely, at once and for everyone."""
import os
import signal
import time
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import procs
from checks.d01 import split, norm, verdict

PROPERTY = "D06"
RULE = ("schedule: cases are histories of requests (site-wide and with user preferences) on one server while an operator changes the site file and the preferences (including versions that can't be loaded) and triggers reloads, under generated schedules that switch threads at every read from the client, while configuration lines are parsed and in the plugins' hooks; every reply must be the one of a version that the reloads so far allow; "
        "non-trivial = a reload and a request overlap")
ASSUMPTIONS = ["each version of a file replaces the previous one at once, as by renaming", "preferences are read at the first request of a user after a reload, with the site files then on disk"]
USERS = ["alice", "bob"]
MSG = "From: joe@example.com\nSubject: s\n\ntokalpha text\n"
PLUG = "loadplugin sut.gates.Gate\n"
BAD = "body VBAD /tokalpha/\ninclude @LOOP@\n"


def site_text(n, kind):
    if kind == "bad":
        return PLUG + "required_score 77\nbody COMMON /tokalpha/\nscore COMMON 50\nvgate\n" + BAD
    return PLUG + "allow_user_rules 1\nvgate\nbody V%d /tokalpha/\nscore V%d 0.5\nbody COMMON /tokalpha/\ndescribe COMMON site %d\nscore COMMON %d\nvgate\nrequired_score %d.5\nadd_header all Site v%d _TESTS_\nvgate\nclear_report_template\nreport version %d _SCORE_\n" % ((n,) * 7)


def prefs_text(n, kind):
    if kind == "loop":
        return "body P%d /tokalpha/\ninclude @LOOP@\n" % n
    return "body P%d /tokalpha/\nvgate\nscore COMMON 10.%d\nadd_header all Prefs p%d\nvgate\n" % (n, n % 10, n)


operator_op = st.sampled_from(["write", "write", "write", "bad", "prefs", "prefs", "loop", "reload", "reload", "reload", "reload"])
request = st.fixed_dictionaries(dict(user=st.sampled_from([None, None, "alice", "alice", "bob"]), command=st.sampled_from(["PROCESS", "REPORT", "SYMBOLS"]), sizes=st.sampled_from([[], [60], [40, 30], [1000]])))
history = st.lists(st.tuples(operator_op, st.sampled_from(USERS)).map(list), max_size=5)
core = st.sampled_from([["write", "reload", "write", "reload"], ["write", "reload", "prefs", "reload"], ["write", "prefs", "reload"], ["write", "reload", "bad", "reload"], ["reload", "write", "reload"]])
operator = st.one_of(st.lists(st.tuples(operator_op, st.sampled_from(USERS)).map(list), min_size=2, max_size=9), st.tuples(history, core, history).map(lambda t: t[0] + [[o, "alice"] for o in t[1]] + t[2]))
# who runs next at every gate: anyone, or one thread for a while
runs = st.lists(st.tuples(st.integers(0, 4), st.integers(1, 12)), min_size=3, max_size=12).map(lambda l: [c for c, n in l for _ in range(n)])
choices = st.one_of(st.lists(st.integers(0, 5), min_size=8, max_size=60), runs, runs)
case_st = st.fixed_dictionaries(dict(operator=operator, requests=st.lists(request, min_size=2, max_size=7), choices=choices))


def data_of(user, command):
    return "%s SPAMC/1.2\r\n%sContent-length: %d\r\n\r\n%s" % (command, "" if user is None else "User: %s\r\n" % user, len(MSG), MSG)


def bodies(w, known, site, prefs):
    key = (site, prefs)
    if key not in known:
        files = [["10.cf", site]] + ([["user_prefs", prefs]] if prefs is not None else [])
        res = w.call("core.scan", dict(files=files, msgs=[MSG], want=["report", "adjusted"]))
        check(res["load_exc"] is None and "exc" not in res["results"][0], "direct scan failed", res=res, site=site, prefs=prefs)
        out = res["results"][0]
        known[key] = (verdict(out, res["required_score"]), {"PROCESS": norm(out["adjusted"]), "REPORT": norm(out["report"]), "SYMBOLS": ",".join(out["tests"])})
    return known[key]


def body(case, w, note):
    sites, prefs, ops = ["good"], ["good"], []
    for op, user in case["operator"]:
        if op in ("write", "bad"):
            sites.append("good" if op == "write" else "bad")
            ops.append(["site", len(sites) - 1])
        elif op in ("prefs", "loop"):
            prefs.append("good" if op == "prefs" else "loop")
            ops.append(["prefs", user, len(prefs) - 1])
        else:
            ops.append(["reload"])
    final = [dict(user=u, command=c, sizes=[]) for u in [None] + USERS for c in ("PROCESS",)]
    reqs = case["requests"]
    texts = [site_text(i, k) for i, k in enumerate(sites)]
    ptexts = [prefs_text(i, k) for i, k in enumerate(prefs)]
    wire = lambda rs: [dict(data=data_of(r["user"], r["command"]), sizes=r["sizes"]) for r in rs]
    res = w.call("reload.run", dict(site=texts, prefs=ptexts, users=USERS, operator=ops, requests=wire(reqs), final=wire(final), choices=case["choices"]))
    events = res["events"] + [e for i, r in enumerate(res["final"]) for e in (["req", len(reqs) + i], ["reply", len(reqs) + i, r])]
    info = dict(events=[e if e[0] != "reply" else e[:2] for e in events], case=case)
    check(res["done"] and not res["errors"], "the threads do not come to an end", errors=res["errors"], **info)
    reqs = reqs + final
    known = {}
    # versions on disk and how they have been read so far
    disk_low, disk_high = 0, 0
    plow, phigh = {u: 0 for u in USERS}, {u: 0 for u in USERS}
    began = {}              # load -> (site, prefs) on disk when it began
    open_loads = set()
    low, pmin = 0, {u: 0 for u in USERS}        # what a completed reload guarantees
    top = 0                 # newest version that some load may have read
    start = {}
    overlap = False
    for e in events:
        if e[0] == "writing":
            disk_high = e[1]
        elif e[0] == "site":
            disk_low = e[1]
        elif e[0] == "editing":
            phigh[e[1]] = e[2]
        elif e[0] == "prefs":
            plow[e[1]] = e[2]
        elif e[0] == "load":
            began[e[1]] = (disk_low, dict(plow))
            open_loads.add(e[1])
            overlap = overlap or bool(e[1] and set(start) - {"done"} and any(v is not None for v in start.values()))
        elif e[0] == "loaded":
            open_loads.discard(e[1])
            top = max(top, disk_high)
            if e[2]:
                low = max(low, began[e[1]][0])
                pmin = {u: max(pmin[u], began[e[1]][1][u]) for u in USERS}
            note.event("reload" if e[2] else "failing reload")
        elif e[0] == "req":
            start[e[1]] = (low, dict(pmin), disk_low, top)
            overlap = overlap or bool(open_loads - {0})
        elif e[0] == "reply":
            i, r = e[1], e[2]
            req = reqs[i]
            user = req["user"]
            low0, pmin0, dlow, _ = start[i]
            start[i] = None
            newest = max([top] + [disk_high] * bool(open_loads))
            plain = [v for v in range(low0, newest + 1) if sites[v] == "good"]
            # no reload can have read a bad version, so the last good one before counts too
            if not plain:
                plain = [max(v for v in range(low0 + 1) if sites[v] == "good")]
            allowed = []
            if user is None:
                allowed = [(v, None) for v in plain]
            else:
                for v in range(low0, disk_high + 1):
                    if sites[v] == "good":
                        allowed += [(v, p) for p in range(pmin0[user], phigh[user] + 1) if prefs[p] == "good"]
                if any(sites[v] == "bad" for v in range(low0, disk_high + 1)) or any(prefs[p] == "loop" for p in range(pmin0[user], phigh[user] + 1)):
                    allowed += [(v, None) for v in plain]
            check(r["exc"] is None, "exception in the handler", exc=r["exc"], tb=r["tb"], request=req, **info)
            status, spam, n, text = split(r["reply"])
            text = norm(text.decode("utf-8"))
            ok = any((spam, text) == (verd, b[req["command"]]) for verd, b in (bodies(w, known, texts[v], None if p is None else ptexts[p]) for v, p in allowed))
            check(ok, "the reply is not that of a configuration that may be in effect", request=req, reply=r["reply"], allowed=allowed, number=i, **info)
            note.event("site" if user is None else "user")
    note.nontrivial(overlap)



step = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("requests"), n=st.integers(1, 6))),
    st.fixed_dictionaries(dict(op=st.just("reload"), kind=st.sampled_from(["good", "good", "good", "bad"]), script=st.integers(0, 3).map(lambda i: i == 0), busy=st.integers(0, 2), twice=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("abandon"), text=st.sampled_from(["", "SYM", "SYMBOLS SPAMC/1.2\r\nContent-length: 50\r\n\r\nabc", "PING", "bogus\r\n"]))))
process_st = st.fixed_dictionaries(dict(prefork=st.sampled_from([None, 1, 2, 3, 4, 3]), detach=st.sampled_from([True, True, False]), relative=st.booleans(), steps=st.lists(step, min_size=1, max_size=5), busy=st.integers(0, 2), script=st.booleans()))


def plain_site(n, kind):
    if kind == "bad":
        return "body VBAD /tokalpha/\ninclude 10.cf\n"
    return "body V%d /tokalpha/\nscore V%d 0.5\nbody M1 /first/\nbody M2 /second/\nbody M3 /third/\n" % (n, n)


def process_body(case, w, note):
    tags = ["first", "second", "third"]
    started = procs.Daemon(plain_site(0, "good"), prefork=case["prefork"], detach=case["detach"], relative=case["relative"])
    workers = max(case["prefork"] or 1, 1)
    info = dict(case=case)
    try:
        d = started
        now = 0

        def head(k):
            text = "\ntokalpha %s\n" % tags[k % 3]
            return "SYMBOLS SPAMC/1.2\r\nContent-length: %d\r\n\r\n" % len(text), text

        def answer(reply, k, versions, what):
            check(reply is not None, "a request gets no reply " + what, log=d.log(), **info)
            ok = any(reply.endswith("\r\n\r\nV%d,M%d" % (v, k % 3 + 1)) and " 0 EX_OK\r\n" in reply for v in versions)
            return ok

        def everyone(what, versions, fail=True):
            """One request for every worker: all connected before the first is completed."""
            clients = [d.connect() for _ in range(workers)]
            for k, c in enumerate(clients):
                c.send(head(k)[0])
            for k, c in enumerate(clients):
                c.send(head(k)[1])
            replies = [c.finish() for c in clients]
            good = [answer(r, k, versions, what) for k, r in enumerate(replies)]
            if fail:
                check(all(good), "reply " + what, replies=replies, expected=["V%d" % v for v in versions], log=d.log(), **info)
            return all(good), replies

        everyone("after the start", [now])
        reloads = 0
        for n, s in enumerate(case["steps"], 1):
            if s["op"] == "requests":
                clients = [d.connect() for _ in range(s["n"])]
                for k, c in enumerate(clients):
                    c.send("".join(head(k)))
                for k, c in enumerate(clients):
                    reply = c.finish()
                    check(answer(reply, k, [now], "among others"), "reply among others", reply=reply, log=d.log(), **info)
            elif s["op"] == "abandon":
                c = d.connect()
                if s["text"]:
                    c.send(s["text"])
                c.sock.close()
            else:
                busy = []
                for k in range(min(s["busy"], workers)):
                    c = d.connect()
                    c.send(head(k)[0])
                    check(c.taken(), "a connection is not accepted", log=d.log(), **info)
                    busy.append(c)
                before = now
                d.put(plain_site(n, s["kind"]))
                if s["script"] and d.detach:
                    d.script("reload")
                else:
                    d.signal(signal.SIGUSR1)
                if s["twice"]:
                    d.signal(signal.SIGUSR1)
                if s["kind"] == "good":
                    now = n
                    reloads += 1
                for k, c in enumerate(busy):
                    c.send(head(k)[1])
                    reply = c.finish()
                    check(answer(reply, k, [before, now], "during a reload"), "reply during a reload", reply=reply, log=d.log(), **info)
                end = time.monotonic() + procs.LIMIT
                ok = s["kind"] == "bad"
                while not ok and time.monotonic() < end:
                    ok, replies = everyone("during a reload", [now], fail=False)
                    if not ok:
                        everyone("during a reload", [before, now])
                        time.sleep(0.05)
                check(ok, "a worker still uses the configuration of before the reload", log=d.log(), **info)
                everyone("after a reload", [now])
            note.event(s["op"])
        busy = []
        for k in range(min(case["busy"], workers)):
            c = d.connect()
            c.send(head(k)[0])
            check(c.taken(), "a connection is not accepted", log=d.log(), **info)
            busy.append(c)
        if case["script"] and d.detach:
            d.script("stop")
        else:
            d.signal(signal.SIGTERM)
        time.sleep(0.1)
        for k, c in enumerate(busy):
            c.send(head(k)[1])
            reply = c.finish()
            check(answer(reply, k, [now], "while stopping"), "reply while stopping", reply=reply, log=d.log(), **info)
        check(d.gone(), "processes of the daemon are left after stopping it", left=len(procs.members(d.sid)), log=d.log(), **info)
        check(not os.path.exists(os.path.join(d.base, "oad.pid")), "the pid file is left after stopping the daemon", **info)
        note.event("prefork %s" % case["prefork"], "detached" if case["detach"] else "foreground")
        note.nontrivial(bool(reloads and workers > 1))
    finally:
        started.close()


FACETS = [Facet("schedule", case_st, body, quick=400), Facet("process", process_st, process_body, quick=40)]
