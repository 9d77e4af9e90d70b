"""Scan and report with stand-ins for Pyzor, Razor and SpamCop."""
import os
import stat

import oa.message
import oa.plugins.spam_cop

from sut import core, fakes, net, recorder

SCRIPT = """#!/bin/sh
echo "$0 $*" >> %(log)s
%(read)s
%(end)s
"""


def razor(arg):
    """arg: {program: kind or exit code}; programs log their arguments and standard input."""
    base = os.path.join(os.getcwd(), "bin")
    os.makedirs(base)
    log = os.path.join(os.getcwd(), "razor.log")
    for name, kind in arg.items():
        if kind == "missing":
            continue
        path = os.path.join(base, name)
        read = "cat > %s" % os.path.join(os.getcwd(), name + ".in")
        end = "exit %s" % (kind if isinstance(kind, int) else 0)
        if kind == "hang":
            end = "exec sleep 30"
        elif kind == "killed":
            end = "kill -9 $$"
        elif kind == "deaf":
            read, end = "exec 0<&-", "exit 0"
        elif kind == "noisy":
            end = "echo out; echo err >&2; exit 0"
        with open(path, "w") as f:
            f.write(SCRIPT % dict(log=log, read=read, end=end))
        if kind != "notexec":
            os.chmod(path, stat.S_IRWXU)
    os.environ["PATH"] = base + ":/usr/bin:/bin"
    return log


class Smtp(object):
    fault = None
    calls = []

    def __init__(self, *args, **kwargs):
        if args:
            self.connect(*args)

    def _do(self, what, *args):
        Smtp.calls.append([what] + [a if isinstance(a, (str, int, list)) else str(a) for a in args])
        if Smtp.fault == what:
            import smtplib
            raise {"connect": OSError("refused"), "helo": smtplib.SMTPServerDisconnected("gone"), "sendmail": smtplib.SMTPRecipientsRefused({}), "quit": smtplib.SMTPServerDisconnected("gone")}[what]

    def connect(self, host, port=0):
        self._do("connect", host, port)

    def helo(self, name=""):
        self._do("helo", name)

    def sendmail(self, sender, to, message, *args):
        self._do("sendmail", sender, to, message if isinstance(message, str) else message.decode("latin-1"))

    def quit(self):
        self._do("quit")


def run(arg):
    log = razor(arg["razor"])
    fakes.PYZOR["answers"] = arg["pyzor"]
    net.Dns(arg["dns"])
    Smtp.fault = arg["smtp"]
    oa.plugins.spam_cop.smtplib.SMTP = Smtp
    ruleset = core.load(arg["files"])
    client = [c for c in fakes.PYZOR["calls"] if c[0] == "init"]
    out = {"client": client, "results": []}
    for op in arg["ops"]:
        del fakes.PYZOR["calls"][:], Smtp.calls[:], recorder.CALLS[:]
        if os.path.exists(log):
            os.remove(log)
        res = {}
        msg = oa.message.Message(ruleset.ctxt, arg["raw"])
        try:
            if op == "report":
                ruleset.ctxt.hook_report(msg)
            elif op == "revoke":
                ruleset.ctxt.hook_revoke(msg)
            else:
                ruleset.match(msg)
                if op == "scan+report":
                    ruleset.ctxt.hook_report(msg)
        except Exception as e:
            res["exc"] = core.exc(e) + core.last_frames()
        res["tests"] = [n for n, r in msg.rules_checked.items() if r]
        res["evaluated"] = list(msg.rules_checked)
        res["tags"] = dict((str(k), str(v)) for k, v in msg.plugin_tags.items())
        res["pyzor"] = [list(c) for c in fakes.PYZOR["calls"]]
        res["smtp"] = [list(c) for c in Smtp.calls]
        res["hooks"] = [c[:2] for c in recorder.CALLS]
        res["razor"] = []
        if os.path.exists(log):
            with open(log) as f:
                for line in f:
                    prog, _, args = line.rstrip("\n").partition(" ")
                    prog = os.path.basename(prog)
                    p = os.path.join(os.getcwd(), prog + ".in")
                    res["razor"].append([prog, args, open(p, "rb").read().decode("utf8", "replace") if os.path.exists(p) else None])
        out["results"].append(res)
    return out
