"""Plugins that record every hook."""
import oa.plugins.base

from sut import core

CALLS = []
INHIBIT = set()
RAISE = set()


class _P(oa.plugins.base.BasePlugin):
    def __init__(self, ctxt):
        super(_P, self).__init__(ctxt)
        self["count"] = 0

    def _seen(self, hook, *data):
        name = type(self).__name__
        CALLS.append([hook, name] + list(data))
        if (name, hook) in INHIBIT:
            self.inhibit_further_callbacks()

    def _mark(self, msg):
        """Data stored under the same key by every plugin."""
        try:
            old = self.get_local(msg, "mark")
        except KeyError:
            old = None
        self.set_local(msg, "mark", [type(self).__name__, (old or ["", 0])[1] + 1])
        return old

    def finish_parsing_start(self, results):
        self._seen("parsing_start", sorted(results))

    def finish_parsing_end(self, ruleset):
        super(_P, self).finish_parsing_end(ruleset)
        self._seen("parsing_end", sorted(ruleset.checked))

    def check_start(self, msg):
        self["count"] += 1
        self._seen("check_start", msg.raw_msg, self._mark(msg), self["count"], msg.msg["Subject"])

    def extract_metadata(self, msg, payload, text, part):
        self._seen("extract_metadata", payload, text, part.get_content_type())

    def parsed_metadata(self, msg):
        self._seen("parsed_metadata", msg.text, self._mark(msg), sorted(msg.rules_checked), sorted(r["ip"] for r in msg.received_headers))

    def check_end(self, ruleset, msg):
        self._seen("check_end", msg.score, [n for n, r in msg.rules_checked.items() if r], self._mark(msg))

    def auto_learn_discriminator(self, ruleset, msg):
        self._seen("auto_learn", msg.score, [n for n, r in msg.rules_checked.items() if r], self._mark(msg))

    def plugin_report(self, msg):
        self._seen("report", msg.raw_msg)

    def plugin_revoke(self, msg):
        self._seen("revoke", msg.raw_msg)


class HA(_P):
    options = {"opt_shared": ("str", "none"), "opt_a": ("str", "none")}


class HB(_P):
    options = {"opt_shared": ("str", "none"), "opt_b": ("str", "none")}


class HC(_P):
    options = {"opt_shared": ("str", "none")}


def run(arg):
    """arg: files, inhibit [[plugin, hook]], steps [[kind, message]]."""
    del CALLS[:]
    INHIBIT.clear()
    INHIBIT.update((p, h) for p, h in arg["inhibit"])
    import oa.message
    ruleset = core.load(arg["files"])
    out = [["load", list(CALLS)]]
    for kind, raw in arg["steps"]:
        del CALLS[:]
        msg = oa.message.Message(ruleset.ctxt, raw)
        if kind == "scan":
            ruleset.match(msg)
        elif kind == "report":
            ruleset.ctxt.hook_report(msg)
        elif kind == "revoke":
            ruleset.ctxt.hook_revoke(msg)
        out.append([kind, list(CALLS)])
    plugins = ruleset.ctxt.plugins
    opts = dict((n, dict((o, p[o]) for o in p.options)) for n, p in plugins.items() if n.startswith("H"))
    return dict(steps=out, options=opts, order=list(plugins))
