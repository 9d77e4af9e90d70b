"""Read back the options of a loaded configuration."""
from sut import core


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(type(v))


def options(arg):
    """files, keys: {"": [...], PluginClass: [...]} -> the values held."""
    res = {"load_exc": None}
    try:
        ruleset = core.load(arg["files"])
    except Exception as e:
        return {"load_exc": core.exc(e), "tb": core.last_frames()}
    out = {}
    for owner, keys in arg["keys"].items():
        holder = ruleset.conf if not owner else ruleset.ctxt.plugins[owner]
        out[owner] = dict((k, plain(holder.get_global(k))) for k in keys)
    res["values"] = out
    return res


def history(arg):
    """steps: ["load", slot, files, paranoid] | ["scan", slot, msgs] | ["drop", slot]; scans return results."""
    slots, out = {}, []
    for step in arg["steps"]:
        if step[0] == "load":
            try:
                slots[step[1]] = core.load(step[2], step[3])
                rs = slots[step[1]]
                out.append({"load_exc": None, "required": rs.conf["required_score"],
                            "rules": [[n, r.score, r.description, r.priority] for n, r in rs.checked.items()]})
            except Exception as e:
                slots.pop(step[1], None)
                out.append({"load_exc": core.exc(e).replace("conf%d/" % core._n[0], "confN/")})
        elif step[0] == "drop":
            slots.pop(step[1], None)
            out.append(None)
        else:
            rs = slots.get(step[1])
            out.append(None if rs is None else [core.scan_message(rs, m, arg["want"]) for m in step[2]])
    return out


def held(ruleset):
    """Options of the ruleset and its plugins (as loaded, not per message) and the rules with their attributes."""
    def table(holder):
        out = {}
        for name in sorted(holder.options or {}):
            try:
                out[name] = plain(holder.get_global(name))
            except (KeyError, AttributeError):
                out[name] = None
        return out
    rules = [[n, type(r).__name__, r.score, r.description, r.priority] for n, r in ruleset.checked.items()]
    plugins = dict((name, table(p)) for name, p in ruleset.ctxt.plugins.items())
    return plain({"conf": table(ruleset.conf), "plugins": plugins, "rules": rules, "off": sorted(ruleset.not_checked)})


def sequence(arg):
    try:
        ruleset = core.load(arg["files"])
    except Exception as e:
        return {"load_exc": core.exc(e), "tb": core.last_frames()}
    before = held(ruleset)
    res = [core.scan_message(ruleset, m, arg["want"]) for m in arg["msgs"]]
    return {"load_exc": None, "results": res, "before": before, "after": held(ruleset)}
