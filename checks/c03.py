"""C03: conditional blocks and plugin availability."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import gen

PROPERTY = "C03"
RULE = ("cases are trees of nested ifplugin/else/endif blocks (SpamAssassin names, dotted paths, bare class names, unknown names) around rule, score, loadplugin and eval-rule lines, in one or two files with an include; "
        "the expected rules come from interpreting the tree; non-trivial = blocks nest at least two deep or have an else, one is skipped and one taken")
ASSUMPTIONS = ["`ifplugin` identifies a plugin by its class name, as the code does: Mail::SpamAssassin::Plugin::X, its reimplementation's dotted path and the bare class name are the same plugin"]
# class name -> (spellings, eval function, spelling usable with loadplugin)
PLUGS = {
    "HeaderEval": (["Mail::SpamAssassin::Plugin::HeaderEval", "oa.plugins.header_eval.HeaderEval", "HeaderEval"], "check_for_missing_to_header"),
    "BodyEval": (["Mail::SpamAssassin::Plugin::BodyEval", "oa.plugins.body_eval.BodyEval", "BodyEval"], "check_blank_line_ratio"),
    "RelayEval": (["Mail::SpamAssassin::Plugin::RelayEval", "oa.plugins.relay_eval.RelayEval", "RelayEval"], "check_for_no_rdns_dotcom_helo"),
    "ShortCircuit": (["Mail::SpamAssassin::Plugin::Shortcircuit", "oa.plugins.short_circuit.ShortCircuit", "ShortCircuit"], None),
    "MIMEHeaderPlugin": (["Mail::SpamAssassin::Plugin::MIMEHeader", "oa.plugins.noop.MIMEHeaderPlugin"], None),
    "Mine": (["Mine", "local.Mine"], "mine_check"),
}
UNKNOWN = ["Mail::SpamAssassin::Plugin::Nope", "oa.plugins.nope.Nope", "Nope", "oa.plugins.header_eval.Missing", "Mail::Other::HeaderEvil"]
FAILING = ["Mail::SpamAssassin::Plugin::Nope", "oa.plugins.nope.Nope", "oa.plugins.header_eval.Missing", "oa.message.Message", "Broken conf1/broken.py", "Absent conf1/absent.py", "X conf1/plug.py"]
PLUGIN_SRC = """import oa.plugins.base
class Mine(oa.plugins.base.BasePlugin):
    eval_rules = ("mine_check",)
    def mine_check(self, msg, target=None):
        return True
"""
cls = st.sampled_from(sorted(PLUGS))
rule = st.integers(0, 3).map(lambda w: ["rule", w])
line = st.one_of(rule, rule, st.tuples(st.just("score"), st.integers(0, 7), st.sampled_from([2, 3, -1.5])).map(list), st.tuples(st.just("load"), cls, st.integers(0, 1)).map(list),
                 st.tuples(st.just("eval"), cls).map(list), st.tuples(st.just("badload"), st.sampled_from(FAILING)).map(list))


def block(sub):
    return st.fixed_dictionaries(dict(cond=st.one_of(st.tuples(cls, st.integers(0, 2)).map(list), st.tuples(cls, st.integers(0, 2)).map(list), st.sampled_from(UNKNOWN)),
                                      then=sub, other=st.one_of(st.none(), sub), note=st.sampled_from(["", "", " # comment", " if", " ifplugin"])))


base = st.lists(line, min_size=1, max_size=3)
level1 = st.lists(st.one_of(line, block(base), block(base), base.map(lambda x: ["include", x])), min_size=1, max_size=4)
tree = st.lists(st.one_of(line, block(level1), block(level1), block(base), level1.map(lambda x: ["include", x])), min_size=1, max_size=4)
case_st = st.fixed_dictionaries(dict(pre=st.lists(cls, max_size=4), tree=tree, tree2=st.one_of(st.none(), tree), words=st.sets(st.integers(0, 3)).map(sorted)))


def layout(case):
    files = []
    rules = [0]
    scores = {}
    live = []
    loaded = set()
    seen = dict(skipped=0, taken=0, depth=0, other=0)

    def emit(nodes, active, depth, pending):
        out = []
        for n in nodes:
            if isinstance(n, dict):
                c = n["cond"]
                if isinstance(c, list):
                    sp = PLUGS[c[0]][0]
                    name, is_loaded = sp[c[1] % len(sp)], c[0] in loaded
                else:
                    name, is_loaded = c, False
                seen["depth"] = max(seen["depth"], depth + 1)
                if active:
                    seen["taken" if is_loaded else "skipped"] += 1
                out.append("ifplugin %s%s\n" % (name, n["note"] if n["note"].startswith(" #") else ""))
                out += emit(n["then"], active and is_loaded, depth + 1, pending)
                if n["other"] is not None:
                    seen["other"] += 1
                    out.append("else%s\n" % n["note"])
                    out += emit(n["other"], active and not is_loaded, depth + 1, pending)
                out.append("endif%s\n" % n["note"])
            elif n[0] == "include":
                k = len(files)
                files.append(None)
                text = emit(n[1], active, depth, pending)
                files[k] = ["inc%d.cf!" % k, "".join(text)]
                out.append("include inc%d.cf\n" % k)
            elif n[0] == "rule":
                name = "RULE_%d" % rules[0]
                rules[0] += 1
                out.append("  body %s /%s/\n" % (name, gen.WORDS[n[1]]))
                if active:
                    live.append((name, n[1]))
            elif n[0] == "score":
                out.append("score RULE_%d %s\n" % (n[1], gen.fmt(n[2])))
                if active:
                    scores["RULE_%d" % n[1]] = n[2]
            elif n[0] == "load":
                sp = PLUGS[n[1]][0]
                out.append("loadplugin %s\n" % (sp[n[2] % 2] if n[1] != "Mine" else sp[n[2] % 2] + " conf1/plug.py"))
                if active:
                    loaded.add(n[1])
            elif n[0] == "badload":
                out.append("loadplugin %s\n" % n[1])
            else:
                name = "EVAL_%d" % rules[0]
                rules[0] += 1
                f = PLUGS[n[1]][1]
                out.append("body %s eval:%s()\n" % (name, f or "no_such_function") if n[1] != "BodyEval" else "body %s eval:%s('0','100','1')\n" % (name, f))
                if active:
                    live.append((name, n[1]))
        return out
    pre = emit([["load", p, 0] for p in case["pre"]], True, 0, None)
    top = [["a.cf", "".join(pre + emit(case["tree"], True, 0, None))]]
    if case["tree2"] is not None:
        top.append(["b.cf", "".join(emit(case["tree2"], True, 0, None))])
    return top + files + [["plug.py!", PLUGIN_SRC], ["broken.py!", "import nothing_like_this\nclass Broken(object): pass\n"]], live, scores, loaded, seen


def body(case, w, note):
    files, live, scores, loaded, seen = layout(case)
    res = w.call("core.scan", dict(files=files, msgs=[gen.probe_message([gen.WORDS[i] for i in case["words"]])], want=["evaluated"]))
    check(res["load_exc"] is None, "the configuration failed to load", files=files, exc=res["load_exc"], tb=res.get("tb"))
    out = res["results"][0]
    check("exc" not in out, "scanning raised", out=out, files=files)
    exp = [(n, x) for n, x in live if not isinstance(x, str) or (x in loaded and PLUGS[x][1])]
    check_eq(sorted(out["evaluated"]), sorted(n for n, _ in exp), "active rules", files=files, loaded=sorted(loaded))
    plain = [n for n, x in exp if isinstance(x, int) and x in case["words"]]
    check_eq(sorted(t for t in out["tests"] if t.startswith("RULE_")), sorted(plain), "rules that matched", files=files)
    if not any(t.startswith("EVAL_") for t in out["tests"]):
        check_eq(float(out["score"]), float(sum(scores.get(n, 1.0) for n in plain)), "score", files=files)
    note.nontrivial((seen["depth"] > 1 or seen["other"]) and seen["skipped"] and seen["taken"])
    note.event("depth %d" % seen["depth"])


FACETS = [Facet("blocks", case_st, body, quick=2000)]
