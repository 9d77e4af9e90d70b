"""G16: loading, replacing and unloading plugins."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "G16"
RULE = ("cases are generated plugin modules (overlapping class names, eval rules, commands and options, hooks that inhibit further callbacks, and modules or classes that can't be loaded) and histories of loading (by module, by path, from the configuration), unloading, setting options and running the hooks on two contexts; "
        "after every step the eval rules, commands and data of both contexts and the hooks called are compared with a reference registry; "
        "non-trivial = a plugin was unloaded or replaced while another that shares a name with it was loaded")
ASSUMPTIONS = ["Histories in which a class that is loaded fails to be replaced are not judged after that step: the statement does not say whether the old one stays."]
CLASSES = ["PlugA", "PlugB", "PlugC", "PlugD"]
RULES = ["ev_a", "ev_b", "ev_c"]
CMDS = ["cmdx", "cmdy"]
OPTIONS = {"opt_i": ["int", 3], "opt_s": ["str", "d"], "opt_l": ["append_split", ["d"]], "opt_a": ["append", []], "opt_c": ["clear", ["opt_l", "opt_a"]]}
HOOKS = ["check_start", "extract_metadata", "parsed_metadata", "check_end", "auto_learn_discriminator", "plugin_report", "plugin_revoke", "finish_parsing_start", "finish_parsing_end"]
RUN = ["check_start", "extract_metadata", "parsed_metadata", "check_end", "auto_learn_discriminator", "plugin_report", "plugin_revoke", "finish_parsing_start", "finish_parsing_end"]


@st.composite
def cls(draw):
    kind = draw(st.sampled_from(["plugin"] * 18 + ["other", "value", "undefined"]))
    return dict(name=None, kind=kind, rules=draw(st.lists(st.sampled_from(RULES), unique=True, min_size=draw(st.sampled_from([0, 1, 2])), max_size=3)),
                cmds={k: draw(st.sampled_from(["rule"] * 19 + ["object"])) for k in draw(st.lists(st.sampled_from(CMDS), unique=True))},
                options={k: OPTIONS[k] for k in (list(OPTIONS) if draw(st.booleans()) else draw(st.lists(st.sampled_from(["opt_i", "opt_s"]), unique=True)))},
                inhibit=sorted(draw(st.sets(st.sampled_from(HOOKS), max_size=3))) if draw(st.integers(0, 2)) == 0 else [],
                claims=draw(st.sampled_from([[], [], [], ["opt_i"], ["opt_zz"]])))


@st.composite
def module(draw):
    names = draw(st.lists(st.sampled_from(CLASSES), min_size=1, max_size=2, unique=True))
    classes = []
    for n in names:
        c = draw(cls())
        c["name"] = n
        classes.append(c)
    return dict(classes=classes, broken=draw(st.integers(0, 14)) == 0)


@st.composite
def cases(draw):
    modules = draw(st.lists(module(), min_size=2, max_size=4))
    same = draw(st.integers(0, 4)) == 0
    known = [(i, c["name"]) for i, m in enumerate(modules) for c in m["classes"]]

    @st.composite
    def op(draw):
        k = draw(st.sampled_from(["load"] * 6 + ["unload"] * 3 + ["set"] * 3 + ["put", "hooks"]))
        ctxt = draw(st.sampled_from([0] * 5 + [1]))
        if k == "load":
            i, n = draw(st.sampled_from(known))
            if draw(st.integers(0, 14)) == 0:
                n = draw(st.sampled_from(CLASSES + ["Nope"]))
            return [k, ctxt, i, n, draw(st.sampled_from(["path", "line"] if same else ["import", "path", "line", "importline"]))]
        if k == "unload":
            return [k, ctxt, draw(st.sampled_from([n for _, n in known] * 3 + CLASSES))]
        if k == "put":
            return [k, ctxt, draw(st.sampled_from(CLASSES)), draw(st.integers(0, 9))]
        if k == "set":
            o = draw(st.sampled_from(["opt_i", "opt_s", "opt_l", "opt_a", "opt_c", "opt_zz"]))
            return [k, ctxt, o, str(draw(st.integers(0, 99)))]
        return [k, ctxt]
    return dict(modules=modules, same=same, ops=draw(st.lists(op(), min_size=4, max_size=16)) + [["hooks", 0], ["hooks", 1]])


class Model(object):
    def __init__(self):
        self.loaded = []        # [name, class, tag]
        self.data = {}

    def index(self, name):
        return next((i for i, p in enumerate(self.loaded) if p[0] == name), None)

    def unload(self, name):
        del self.loaded[self.index(name)]
        del self.data[name]

    def load(self, c, tag):
        if self.index(c["name"]) is not None:
            self.unload(c["name"])
        self.loaded.append((c["name"], c, tag))
        self.data[c["name"]] = {k: (list(v[1]) if isinstance(v[1], list) else v[1]) for k, v in c["options"].items()}

    def state(self):
        out = {"plugins": sorted(p[0] for p in self.loaded), "rules": {}, "cmds": {}, "data": {k: {} for k in CLASSES}}
        for name, c, tag in self.loaded:
            me = "%s/%s" % (tag, name)
            out["rules"].update((r, me) for r in c["rules"])
            out["cmds"].update((k, me) for k in c["cmds"])
            out["data"][name] = self.data[name]
        return out

    def set(self, key, value):
        trace = []
        for name, c, tag in self.loaded:
            trace.append(["parse_config", "%s/%s" % (tag, name), key])
            if key in c["claims"]:
                break
            if key in c["options"]:
                d, kind = self.data[name], c["options"][key][0]
                if kind == "int":
                    d[key] = int(value)
                elif kind == "str":
                    d[key] = value
                elif kind == "clear":
                    d.update((k, []) for k in c["options"][key][1])
                else:
                    d[key] = d[key] + [value]
                break
        return trace

    def hooks(self):
        trace = []
        for h in RUN:
            for name, c, tag in self.loaded:
                trace.append([h, "%s/%s" % (tag, name)])
                if h in c["inhibit"]:
                    break
        return trace


def body(case, w, note):
    res = w.call("registry.run", case)
    models = [Model(), Model()]
    shared = False
    for n, (op, r) in enumerate(zip(case["ops"], res)):
        m = models[op[1]]
        err, trace = None, []
        info = dict(step=n, op=op, case=case)
        if op[0] in ("load", "unload"):
            name = op[3] if op[0] == "load" else op[2]
            i = m.index(name)
            if i is not None:
                old = m.loaded[i][1]
                shared = shared or any(set(old["rules"]) & set(c["rules"]) or set(old["cmds"]) & set(c["cmds"]) for x, c, _ in m.loaded if x != name)
        if op[0] == "load":
            mod = case["modules"][op[2]]
            c = next((c for c in mod["classes"] if c["name"] == op[3]), None)
            bad = mod["broken"] or c is None or c["kind"] != "plugin" or "object" in c["cmds"].values()
            if bad and m.index(op[3]) is not None:
                note.event("a failing replacement")
                note.nontrivial(shared)
                return
            if bad:
                err = "PluginLoadError" if op[4] in ("import", "path") else None
            else:
                m.load(c, "m%d" % op[2])
        elif op[0] == "unload":
            if m.index(op[2]) is None:
                err = "PluginLoadError"
            else:
                m.unload(op[2])
        elif op[0] == "set":
            trace = m.set(op[2], op[3])
        elif op[0] == "put":
            if m.index(op[2]) is not None:
                m.data[op[2]]["seen"] = op[3]
        else:
            trace = m.hooks()
        check_eq(r["err"], err, "outcome of the step", **info)
        check_eq(r["trace"], trace, "hooks called", **info)
        for k, (s, q) in enumerate(zip(r["states"], models)):
            check_eq(s, q.state(), "registry of context %d" % k, **info)
        note.event(op[0])
    note.nontrivial(shared)


FACETS = [Facet("history", cases(), body, quick=700)]
