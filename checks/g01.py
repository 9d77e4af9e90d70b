"""G01: short-circuiting stops exactly at the first matching flagged rule."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import gen

PROPERTY = "G01"
RULE = ("cases are 2-10 rules of all types with generated priorities, scores and shortcircuit lines (on, off, spam, ham, invalid, unknown rule) anywhere in the file, optional shortcircuit_*_score settings, and up to four messages scanned in sequence with different hit patterns; evaluated rules, matched rules, score, tags and report are compared with a model; "
        "non-trivial = some message is short-circuited before the last rule and another message is not, or is by a different rule")
ASSUMPTIONS = ["metas referring to short-circuited rules are not generated (evaluating the meta evaluates the rule early)", "at most one shortcircuit line per rule"]
KINDS = gen.RULE_KINDS + ["meta"]
rule = st.fixed_dictionaries(dict(kind=st.sampled_from(KINDS), word=st.integers(0, 5), neg=st.booleans(), prio=st.sampled_from([None, None, None, 0, 5, -5, 10]), score=st.one_of(st.none(), gen.quarter()),
                                  sc=st.sampled_from([None, None, "on", "spam", "ham", "off", "on", "spam", "ham", "Spam", "yes", ""])))
case_st = st.fixed_dictionaries(dict(rules=st.lists(rule, min_size=2, max_size=10), hidden=st.booleans(), first=st.booleans(), spam=st.sampled_from([None, None, 7.25, -1.0, 0.0]), ham=st.sampled_from([None, None, -7.25, 2.0]),
                                     msgs=st.lists(st.lists(st.integers(0, 5), max_size=4, unique=True), min_size=1, max_size=4)))


def body(case, w, note):
    lines = ["loadplugin oa.plugins.short_circuit.ShortCircuit", "report [_SC_] [_SCRULE_] [_SCTYPE_]", "report _SUMMARY_"]
    if case["spam"] is not None:
        lines.append("shortcircuit_spam_score %s" % gen.fmt(case["spam"]))
    if case["ham"] is not None:
        lines.append("shortcircuit_ham_score %s" % gen.fmt(case["ham"]))
    words = gen.WORDS[:6]
    lines += ["body __W%d /%s/" % (i, x) for i, x in enumerate(words)]
    defs, scs = [], ["shortcircuit R_UNKNOWN on", "shortcircuit"]
    rules = []
    for i, r in enumerate(case["rules"]):
        name = gen.NAMES[i]
        if r["kind"] == "meta":
            defs.append("meta %s %s__W%d" % (name, "!" if r["neg"] else "", r["word"]))
        else:
            defs.append(gen.rule_line(r["kind"], name, words[r["word"]]))
        if r["prio"] is not None:
            defs.append("priority %s %d" % (name, r["prio"]))
        if r["score"] is not None:
            defs.append("score %s %s" % (name, gen.fmt(r["score"])))
        if r["sc"] is not None:
            scs.append("shortcircuit %s %s" % (name, r["sc"]))
        rules.append((name, r))
    if case["hidden"]:
        defs.append("body __HID /text/")
        scs.append("shortcircuit __HID on")
    lines += scs + defs if case["first"] else defs + scs
    raws = [gen.probe_message([words[i] for i in m]) for m in case["msgs"]]
    res = w.call("core.scan", dict(files=[["a.cf", "\n".join(lines) + "\n"]], msgs=raws, want=["evaluated", "report", "matched_report"]))
    check(res["load_exc"] is None, "the configuration failed to load", lines=lines, exc=res["load_exc"])
    active = [(n, r) for n, r in rules if r["score"] != 0]
    order = sorted(active, key=lambda x: -(x[1]["prio"] or 0))
    stops = []
    for m, out in zip(case["msgs"], res["results"]):
        check("exc" not in out, "scanning raised", lines=lines, out=out)
        score, ran, hits, stop = 0.0, [], [], None
        for n, r in order:
            ran.append(n)
            hit = (r["word"] in m) != (r["kind"] == "meta" and r["neg"])
            if hit:
                hits.append(n)
                score += 1.0 if r["score"] is None else r["score"]
                if r["sc"] in ("on", "spam", "ham"):
                    stop = (n, r["sc"])
                    score += {"on": 0.0, "spam": 100.0 if case["spam"] is None else case["spam"], "ham": -100.0 if case["ham"] is None else case["ham"]}[r["sc"]]
                    break
        info = dict(lines=lines, words=[words[i] for i in m])
        check_eq(out["evaluated"][:len(ran)], ran[:len(out["evaluated"])], "evaluated rules", **info)
        if stop is None or stop[0] not in out["evaluated"] or len(out["evaluated"]) > len(ran):
            check_eq(out["evaluated"], ran, "evaluated rules", **info)
        check_eq(out["tests"], hits, "matched rules", **info)
        check_eq(out["score"], score, "score", **info)
        tags = "[%s (%s)] [%s] [%s]" % (stop[0], stop[1], stop[0], stop[1]) if stop else "[no] [none] [off]"
        rep = out["report"].replace("\r", "").split("\n")
        check_eq(rep[0], tags, "SC, SCRULE and SCTYPE tags", **info)
        check_eq([l.split()[1] for l in rep[1:] if l.strip()], hits, "rules in the summary", **info)
        check_eq([l.split(" ")[2] for l in out["matched_report"].replace("\r", "").split("\n") if l.startswith("* ")], hits, "rules in the report", **info)
        stops.append(stop if stop is None or ran != [n for n, r in order] else stop + ("last",))
        note.event("stopped " + stop[1] if stop else "not stopped")
    note.nontrivial(len(set(stops)) > 1 and any(s and len(s) == 2 for s in stops))


FACETS = [Facet("shortcircuit", case_st, body, quick=1500)]
