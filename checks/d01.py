"""D01: daemon and CLI replies agree with scanning the message directly."""
import re
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import mail

PROPERTY = "D01"
RULE = ("cases are generated configurations (mail.config: rules of all kinds, plugins, options, templates), MIME mails (non-ASCII bodies and headers included) and thresholds; every command is sent to one server through the real request handler, the CLI's main() runs on a file with and without -R / -t, and the bytes written are compared with a direct scan by a separately loaded ruleset; "
        "non-trivial = some rule matched and the body or the report contains a non-ASCII character or the verdict is spam")
ASSUMPTIONS = ["random multipart boundaries are normalised before comparing", "the request handler gets its connection from a stand-in socket object; the listening socket is not exercised"]
COMMANDS = ["CHECK", "SYMBOLS", "REPORT", "REPORT_IFSPAM", "PROCESS", "HEADERS"]
EXTRA = ["report caf\u00e9 _SCORE_ \u20ac", "add_header all Note plain _TESTS_", "describe B_TOKALPHA d\u00e9crit", "report_safe 0", "report_safe 2", "clear_report_template", "unsafe_report \u00e9\u00e9"]
case_st = st.fixed_dictionaries(dict(mail=mail.mail, evals=mail.evals, options=mail.options, extra=st.lists(st.sampled_from(EXTRA), max_size=3, unique=True), req=st.sampled_from(["-20", "0", "1", "3", "5", "5.25", "50", "on", "on", "above"]), raw=st.sampled_from(["", "", "", "caf\u00e9 \u20ac tokalpha\n"]),
                                     version=st.sampled_from(["SPAMC/1.2", "SPAMC/1.5", "x"]), lower=st.booleans()))
BOUNDARY = re.compile(r"===============\d+==")


def norm(s):
    return BOUNDARY.sub("===============0==", s)


def make(case, w):
    raw = mail.render(case["mail"]) + case["raw"]

    def files(required):
        conf = mail.config(case["evals"], case["options"], extra=case["extra"] + ["required_score %s" % required])
        return [["a.cf", conf.encode("utf-8").decode("latin-1")]]
    required = case["req"]
    if required in ("on", "above"):
        res = w.call("core.scan", dict(files=files("5"), msgs=[raw], want=[]))
        check(res["load_exc"] is None and "exc" not in res["results"][0], "direct scan failed", res=res)
        required = repr(res["results"][0]["score"] + (0.015625 if required == "above" else 0))
    return raw, files(required)


def want_bodies(out):
    return {"CHECK": "", "SYMBOLS": ",".join(out["tests"]), "REPORT": out["report"], "REPORT_IFSPAM": out["report"] if out["spam"] else "", "PROCESS": out["adjusted"], "HEADERS": out["headers"]}


def split(reply):
    """reply (latin-1) -> status line, spam line, length, body bytes."""
    lines = reply.split("\r\n", 3)
    check(len(lines) == 4, "reply does not have a status, a Spam and a Content-length line", reply=reply)
    check(lines[3].startswith("\r\n"), "no empty line before the body", reply=reply)
    m = re.match(r"Content-length: (\d+)$", lines[2])
    check(m, "no Content-length line", reply=reply)
    return lines[0], lines[1], int(m.group(1)), lines[3][2:].encode("latin-1")


def verdict(out, required):
    return "Spam: %s ; %.1f / %s" % (out["spam"], out["score"], required)


def daemon(case, w, note):
    raw, files = make(case, w)
    res = w.call("core.scan", dict(files=files, msgs=[raw], want=["report", "adjusted", "headers"]))
    check(res["load_exc"] is None and "exc" not in res["results"][0], "direct scan failed", res=res)
    out = res["results"][0]
    data = raw.encode("utf-8").decode("latin-1")
    cmds = [c.lower() if case["lower"] else c for c in COMMANDS]
    reqs = [dict(data="%s %s\r\nContent-length: %d\r\n\r\n%s" % (c, case["version"], len(data), data)) for c in cmds]
    reqs += [dict(data="PING %s\r\n" % case["version"]), dict(data="SKIP %s\r\n" % case["version"])]
    got = w.call("daemon.session", dict(files=files, requests=reqs))["replies"]
    bodies = want_bodies(out)
    for c, r in zip(COMMANDS, got):
        check(r["exc"] is None, "exception in the handler", command=c, exc=r["exc"], tb=r["tb"], message=raw)
        status, spam, length, text = split(r["reply"])
        check(re.match(r"SPAMD/\S+ 0 EX_OK$", status), "status line", command=c, reply=r["reply"])
        check_eq(spam, verdict(out, res["required_score"]), "Spam line", command=c, message=raw)
        check_eq(length, len(text), "Content-length against the bytes sent", command=c, message=raw)
        text = text.decode("utf-8")
        if c == "SYMBOLS":
            check_eq(sorted(text.split(",")), sorted(bodies[c].split(",")), "matched rules", message=raw)
        else:
            check_eq(norm(text), norm(bodies[c]), "body of the reply", command=c, message=raw)
    check(got[6]["exc"] is None and re.match(r"SPAMD/\S+ 0 PONG\r\n$", got[6]["reply"]), "PING", reply=got[6])
    check(got[7]["exc"] is None and got[7]["reply"] == "", "SKIP", reply=got[7])
    note.nontrivial(bool(out["tests"]) and (out["spam"] or any(ord(c) > 127 for c in out["adjusted"] + out["report"])))
    note.event("spam" if out["spam"] else "ham", "multibyte" if any(ord(c) > 127 for c in out["adjusted"]) else "ascii")


def cli(case, w, note):
    raw, files = make(case, w)
    res = w.call("core.scan", dict(files=files, msgs=[raw], want=["report", "adjusted", "headers"]))
    check(res["load_exc"] is None and "exc" not in res["results"][0], "direct scan failed", res=res)
    out = res["results"][0]
    exp = {"": out["adjusted"] + "\n", "-R": out["report"] + "\n", "-t": out["adjusted"] + "\n" + out["report"] + "\n"}
    for how in ("stdin", "file"):
        got = w.call("daemon.cli", dict(files=files, msg=raw.encode("utf-8").decode("latin-1"), runs=list(exp.items()) and [[k] if k else [] for k in exp], how=how))
        for k, r in zip(exp, got):
            check(r["exc"] is None, "the command line failed", args=k, how=how, exc=r["exc"], tb=r["tb"])
            check_eq(norm(r["out"]), norm(exp[k]), "output of the command line", args=k, how=how, message=raw)
    note.nontrivial(bool(out["tests"]))
    note.event("spam" if out["spam"] else "ham")


FACETS = [Facet("daemon", case_st, daemon, quick=220), Facet("cli", case_st, cli, quick=80)]
