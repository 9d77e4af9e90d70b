"""G20: the hooks of the plugins."""
import email
from hypothesis import strategies as st
from harness import mail
from harness.core import Facet, check, check_eq

PROPERTY = "G20"
RULE = ("cases are generated sets of recording plugins in any order, with hooks that inhibit further callbacks, options that several of them define, rules (also short-circuiting ones) and histories of parsed, scanned, reported and revoked MIME messages; the calls of every hook and what is visible in them are compared with a model; "
        "non-trivial = at least two plugins and a scanned message with at least two parts, or an inhibited hook with another plugin after it")
ASSUMPTIONS = ["hooks raise nothing except what inhibit_further_callbacks raises"]
HOOKS = ["parsing_start", "parsing_end", "check_start", "extract_metadata", "parsed_metadata", "check_end", "auto_learn", "report", "revoke"]
case_st = st.fixed_dictionaries(dict(plugins=st.permutations(["HA", "HB", "HC"]).flatmap(lambda p: st.integers(1, 3).map(lambda n: list(p)[:n])),
                                     inhibit=st.lists(st.tuples(st.sampled_from(["HA", "HB", "HC"]), st.sampled_from(HOOKS)).map(list), max_size=4),
                                     steps=st.lists(st.tuples(st.sampled_from(["scan", "scan", "parse", "report", "revoke"]), mail.mail).map(list), min_size=1, max_size=4),
                                     options=st.lists(st.tuples(st.sampled_from(["opt_shared", "opt_shared", "opt_a", "opt_b"]), st.sampled_from(["one", "two", "three"])).map(list), max_size=4),
                                     stop=st.sampled_from([None, None, "first", "second", "neither"]), late=st.booleans()))


def body(case, w, note):
    plugins = case["plugins"]
    loads = ["loadplugin sut.hooks." + p for p in plugins]
    rules = ["body R_ANY /./", "score R_ANY 1.5", "header R_NONE X-Nothing =~ /./", "body __SUB /./", "header R_SUBJ Subject =~ /tok/", "score R_SUBJ -0.25", "priority R_SUBJ 5"]
    if case["stop"]:
        rules = ["loadplugin oa.plugins.short_circuit.ShortCircuit"] + rules + ["shortcircuit %s on" % {"first": "R_SUBJ", "second": "R_ANY", "neither": "R_NONE"}[case["stop"]]]
    opts = ["%s %s" % tuple(o) for o in case["options"]]
    files = [["a.cf", "\n".join((rules + loads if case["late"] else loads + rules) + opts) + "\n"]]
    raws = [mail.render(m) for _, m in case["steps"]]
    got = w.call("hooks.run", dict(files=files, inhibit=case["inhibit"], steps=[[k, r] for (k, _), r in zip(case["steps"], raws)]))
    stop = set(map(tuple, case["inhibit"]))

    def told(hook):
        out = []
        for p in plugins:
            out.append(p)
            if (p, hook) in stop:
                break
        return out
    names = sorted(["R_ANY", "R_NONE", "R_SUBJ", "__SUB"])
    want = [["parsing_start", p] for p in told("parsing_start")] + [["parsing_end", p] for p in told("parsing_end")]
    load = got["steps"][0][1]
    check_eq([c[:2] for c in load], want, "calls of the hooks while loading", plugins=plugins, inhibit=case["inhibit"])
    for c in load:
        check_eq(c[2], names if c[0] == "parsing_start" else [n for n in names if not n.startswith("__")], "rules that %s sees" % c[0])
    for hook in HOOKS:
        note.nontrivial(len(told(hook)) < len(plugins))
    scans = 0
    for (kind, m), raw, (_, calls) in zip(case["steps"], raws, got["steps"][1:]):
        scans += 1
        parsed = email.message_from_string(raw)
        parts = list(parsed.walk())
        want = [["check_start", p] for p in told("check_start")]
        for part in parts:
            want += [["extract_metadata", p] for p in told("extract_metadata")]
        want += [["parsed_metadata", p] for p in told("parsed_metadata")]
        if kind == "scan":
            want += [["check_end", p] for p in told("check_end")] + [["auto_learn", p] for p in told("auto_learn")]
        elif kind != "parse":
            want += [[kind, p] for p in told(kind)]
        check_eq([c[:2] for c in calls], want, "calls of the hooks", kind=kind, message=raw, plugins=plugins, inhibit=case["inhibit"])
        note.nontrivial(kind == "scan" and len(plugins) > 1 and len(parts) > 1)
        marks = dict((p, 0) for p in plugins)
        seen = [c for c in calls if c[0] == "extract_metadata"]
        each = len(told("extract_metadata"))
        final = None
        for c in calls:
            mark = [c[1], marks[c[1]]] if marks[c[1]] else None
            if c[0] == "check_start":
                check_eq(c[2], raw, "source that check_start sees")
                check_eq(c[3], mark, "data of the plugin before the message is parsed", plugin=c[1])
                check_eq(c[4], sum(1 for _ in range(scans)), "messages counted in the data that lasts", plugin=c[1])
                check_eq(c[5], parsed["Subject"], "parsed message that check_start sees")
            elif c[0] == "parsed_metadata":
                check_eq(c[3], mark, "data of the plugin with the message", plugin=c[1])
                check_eq(c[4], [], "rules checked before the metadata is complete")
                for _, payload, text, ctype in [[x[1]] + x[2:] for x in seen]:
                    check(text is None or text in c[2], "parsed_metadata does not see the text of a part", text=text, got=c[2])
            elif c[0] in ("check_end", "auto_learn"):
                check_eq(c[4], mark, "data of the plugin after the check", plugin=c[1])
                tok = "tok" in "".join(str(email.header.make_header(email.header.decode_header(v))) for v in parsed.get_all("Subject", []))
                short = case["stop"] == "first" and tok
                hits = (["R_SUBJ"] if tok else []) + ([] if short else ["R_ANY"])
                if c[3] != hits:
                    # R_ANY needs a visible text
                    check_eq([n for n in c[3] if n != "R_ANY"], [n for n in hits if n != "R_ANY"], "rules that %s sees" % c[0], message=raw)
                    check(not (short and "R_ANY" in c[3]), "rules after the stop", message=raw)
                check_eq(c[2], (1.5 if "R_ANY" in c[3] else 0) - (0.25 if tok else 0), "score that %s sees" % c[0])
                final = final or c[2:4]
                check_eq(c[2:4], final, "result that the later hooks see")
            elif c[0] in ("report", "revoke"):
                check_eq(c[2], raw, "message that %s gets" % c[0])
            if c[0] in ("check_start", "parsed_metadata", "check_end", "auto_learn"):
                marks[c[1]] += 1
        for n, part in enumerate(parts):
            for c in seen[n * each:(n + 1) * each]:
                check_eq(c[4], part.get_content_type(), "part in the order of the message")
                check_eq(c[2] is None, part.get_content_maintype() != "text", "payload of a part that is not text is None", part=c[4])
                check_eq(c[3] is None, c[2] is None, "text is given with the payload", part=c[4])
                if c[2] is not None and part.get_content_subtype() != "html":
                    check_eq(c[3], c[2].replace("\n", " "), "text of a part")
                check_eq(c[2:], seen[n * each][2:], "part that every plugin gets")
    opt = dict((p, dict((o, "none") for o in {"HA": ["opt_shared", "opt_a"], "HB": ["opt_shared", "opt_b"], "HC": ["opt_shared"]}[p])) for p in plugins)
    for o, v in case["options"]:
        for p in plugins:
            if o in opt[p]:
                opt[p][o] = v
                break
    check_eq(got["options"], opt, "options go to the first plugin that has them", given=case["options"])


FACETS = [Facet("hooks", case_st, body, 500)]
