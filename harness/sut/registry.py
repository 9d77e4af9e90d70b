"""Histories of plugin loading on several contexts."""
import os
import sys

from sut import core
from sut.conf import plain

TRACE = []
HOOKS = ["check_start", "extract_metadata", "parsed_metadata", "check_end", "auto_learn_discriminator", "plugin_report", "plugin_revoke", "finish_parsing_start", "finish_parsing_end"]
MESSAGE = "From: a@example.com\nSubject: x\n\nbody\n"
_n = [0]


def source(spec, tag):
    """The text of a plugin module."""
    lines = ["import oa.plugins.base", "import oa.rules.body", "from sut import registry", ""]
    for c in spec["classes"]:
        name, me = c["name"], "%s/%s" % (tag, c["name"])
        for k, kind in sorted(c["cmds"].items()):
            lines += ["class R_%s_%s(%s):" % (name, k, "oa.rules.body.BodyRule" if kind == "rule" else "object"), "    tag = %r" % me, ""]
        if c["kind"] == "value":
            lines += ["%s = 5" % name, ""]
            continue
        lines += ["class %s(%s):" % (name, "object" if c["kind"] == "other" else "oa.plugins.base.BasePlugin"),
                  "    eval_rules = %r" % (tuple(c["rules"]) + (("ev_missing",) if c["kind"] == "undefined" else ()),),
                  "    options = %r" % ({k: tuple(v) for k, v in c["options"].items()} or None,),
                  "    cmds = {%s}" % ", ".join("%r: R_%s_%s" % (k, name, k) for k in sorted(c["cmds"])), ""]
        for r in c["rules"]:
            lines += ["    def %s(self, msg, target=None):" % r, "        return %r" % me, ""]
        for h in HOOKS:
            lines += ["    def %s(self, *args):" % h, "        registry.TRACE.append([%r, %r])" % (h, me)]
            if h == "finish_parsing_end":
                lines += ["        super(%s, self).finish_parsing_end(*args)" % name]
            if h in c["inhibit"]:
                lines += ["        self.inhibit_further_callbacks()"]
            lines += [""]
        lines += ["    def parse_config(self, key, value):", "        registry.TRACE.append(['parse_config', %r, key])" % me]
        if c["claims"]:
            lines += ["        if key in %r:" % (c["claims"],), "            self.inhibit_further_callbacks()"]
        lines += ["        return super(%s, self).parse_config(key, value)" % name, ""]
    if spec["broken"]:
        lines += ["def broken(:"]
    return "\n".join(lines) + "\n"


def state(ctxt):
    out = {"plugins": sorted(ctxt.plugins), "rules": {}, "cmds": {}, "data": {}}
    for k, f in ctxt.eval_rules.items():
        if k.startswith("ev_"):
            out["rules"][k] = f(None)
    for k, cls in ctxt.cmds.items():
        out["cmds"][k] = cls.tag
    for k in "ABCD":
        name = "Plug" + k
        data = ctxt.plugin_data.get(name)
        out["data"][name] = dict((o, plain(v)) for o, v in sorted(data.items()) if o.startswith("opt_") or o == "seen") if data else {}
    return out


def run(arg):
    import oa.errors
    import oa.message
    import oa.rules.parser
    del TRACE[:]
    _n[0] += 1
    base = os.path.join(os.getcwd(), "plugs%d" % _n[0])
    os.makedirs(base)
    sys.path.append(base)
    names, paths = [], []
    out = []
    try:
        for i, spec in enumerate(arg["modules"]):
            names.append("vplug_%d" % _n[0] if arg["same"] else "vplug_%d_%d" % (_n[0], i))
            os.makedirs(os.path.join(base, str(i)))
            paths.append(os.path.join(base, str(i) if arg["same"] else "", names[-1] + ".py"))
            with open(paths[-1], "w") as f:
                f.write(source(spec, "m%d" % i))
        parsers = [oa.rules.parser.PADParser() for _ in range(2)]
        lines = [0]

        def parse(p, text):
            lines[0] += 1
            path = os.path.join(base, "line%d.cf" % lines[0])
            with open(path, "w") as f:
                f.write(text + "\n")
            p.parse_file(path)
        for op in arg["ops"]:
            p = parsers[op[1]]
            ctxt, err = p.ctxt, None
            try:
                if op[0] == "load":
                    name, path = op[3], paths[op[2]]
                    if op[4] == "import":
                        ctxt.load_plugin(names[op[2]] + "." + name)
                    elif op[4] == "path":
                        ctxt.load_plugin(name, path)
                    elif op[4] == "line":
                        parse(p, "loadplugin %s %s" % (name, path))
                    else:
                        parse(p, "loadplugin %s.%s" % (names[op[2]], name))
                elif op[0] == "unload":
                    ctxt.unload_plugin(op[2])
                elif op[0] == "set":
                    parse(p, "%s %s" % (op[2], op[3]))
                elif op[0] == "put":
                    if op[2] in ctxt.plugins:
                        ctxt.plugins[op[2]]["seen"] = op[3]
                elif op[0] == "hooks":
                    msg = oa.message.Message(ctxt, MESSAGE)
                    ctxt.hook_check_end(p.ruleset, msg)
                    ctxt.hook_auto_learn(p.ruleset, msg)
                    ctxt.hook_report(msg)
                    ctxt.hook_revoke(msg)
                    ctxt.hook_parsing_start({})
                    ctxt.hook_parsing_end(p.ruleset)
            except oa.errors.PluginLoadError:
                err = "PluginLoadError"
            except Exception as e:
                err = core.exc(e)
            out.append({"err": err, "trace": [list(t) for t in TRACE], "states": [state(q.ctxt) for q in parsers]})
            del TRACE[:]
    finally:
        sys.path.remove(base)
        for n in names:
            sys.modules.pop(n, None)
    return out
