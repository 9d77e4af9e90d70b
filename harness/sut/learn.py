"""Learning histories with the Bayes, auto-learning and auto-whitelist plugins on a scratch SQLite database."""
import os

import oa.message
import oa.db.bayes.sqlalchemy as store
import oa.plugins.awl

from sut import core


def _dsn(name):
    return "sqlite:///" + os.path.join(os.getcwd(), name)


def dump(session):
    try:
        row = session.query(store.BayesVars.spam_count, store.BayesVars.ham_count).first()
        return {"counts": list(row) if row else [0, 0],
                "tokens": sorted([bytes(t).hex(), s, h] for t, s, h in session.query(
                    store.BayesToken.token, store.BayesToken.spam_count, store.BayesToken.ham_count)),
                "seen": sorted([m, f] for m, f in session.query(store.BayesSeen.msgid, store.BayesSeen.flag))}
    finally:
        session.close()


def bayes(arg):
    """arg: lines, msgs, ops [[what, index or indexes]...]; returns one result per operation."""
    lines = ["bayes_sql_dsn " + _dsn("bayes.db")] + arg["lines"]
    ruleset = core.load([["a.cf", "\n".join(arg.get("plugins", ["loadplugin oa.plugins.bayes.BayesPlugin"]) + lines) + "\n"]])
    ctxt = ruleset.ctxt
    plugin = ctxt.plugins["BayesPlugin"]
    store.Base.metadata.create_all(plugin.get_engine())
    out = {"tokens": [], "results": []}
    ready = []
    for raw in arg["msgs"]:
        msg = oa.message.Message(ctxt, raw)
        out["tokens"].append(sorted((bytes(h).hex(), t) for h, t in plugin.tokenise(msg)))
        ready.append(msg)
    for what, which in arg["ops"]:
        res = {}
        for i in which if isinstance(which, list) else [which]:
            msg = ready[i] if arg.get("upfront") else oa.message.Message(ctxt, arg["msgs"][i])
            try:
                if what == "spam":
                    ctxt.hook_report(msg)
                elif what == "ham":
                    ctxt.hook_revoke(msg)
                elif what == "forget":
                    plugin.forget_message(msg, msg.msgid)
                else:
                    msg = oa.message.Message(ctxt, arg["msgs"][i])
                    ruleset.match(msg)
                    res["tests"] = [n for n, r in msg.rules_checked.items() if r]
                    res["score"] = msg.score
                    res["tags"] = dict((str(k), str(v)) for k, v in msg.plugin_tags.items() if k.startswith("BAYES"))
            except Exception as e:
                res["exc"] = core.exc(e) + core.last_frames()
        if arg.get("dump", True) or what == "dump":
            res.update(dump(plugin.get_session()))
        out["results"].append(res)
    return out


def score(arg):
    """Train a database with the base configuration, scan with the extra lines added."""
    first = bayes(dict(lines=arg["lines"], msgs=arg["msgs"], ops=arg["train"], dump=False))
    for r in first["results"]:
        if "exc" in r:
            raise RuntimeError(r["exc"])
    lines = arg["lines"] + arg["extra"]
    second = bayes(dict(lines=lines, msgs=arg["msgs"], ops=[["scan", i] for i in arg["scan"]], dump=False))
    return {"tokens": first["tokens"], "results": second["results"]}


def awl(arg):
    """Scan messages in sequence with the auto-whitelist plugin; the table after every message."""
    lines = ["loadplugin oa.plugins.awl.AutoWhiteListPlugin", "user_awl_dsn " + _dsn("awl.db")] + arg["lines"]
    rulesets = [core.load([["a.cf", "\n".join(lines) + "\n"]]) for _ in range(arg.get("processes", 1))]
    plugin = rulesets[0].ctxt.plugins["AutoWhiteListPlugin"]
    table = oa.plugins.awl.AWL
    oa.plugins.awl.Base.metadata.create_all(plugin.get_engine())
    out = []
    for i, raw in enumerate(arg["msgs"]):
        r = core.scan_message(rulesets[i % len(rulesets)], raw, ["tags"])
        session = plugin.get_session()
        r["table"] = sorted([e.email, e.ip, e.signedby, e.count, e.totscore] for e in session.query(table))
        session.close()
        out.append(r)
    return out
