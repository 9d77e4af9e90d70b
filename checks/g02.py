"""G02: replace tags expand to their definitions only in the listed rules."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "G02"
RULE = ("cases are generated tag, pre, inter and post definitions (redefinitions and malformed lines included), delimiters, rules of all types whose patterns mix literals, tags, unknown tags and modifiers, replace_rules lists (unknown and undefined rules included), in any order of lines; messages carry texts instantiated from the patterns; the matched rules are compared with a configuration without the plugin in which every pattern was expanded by the oracle; "
        "non-trivial = a listed rule that contains a tag matches, and the same configuration without expansion would give another result")
ASSUMPTIONS = ["a rule names at most one modifier of each kind (once or twice), which takes effect for the whole pattern wherever it stands", "tag definitions contain no tags", "the last definition of a tag counts"]
# name -> values a definition may have, with texts that match it
TAGVALS = {"[ab]": ["a", "b"], "(?:tik|tok)": ["tik", "tok"], "x{2}": ["xx"], "z": ["z"], "[0-9]": ["4", "9"], "q|w": ["q", "w"], "(?:m y)": ["m y"]}
MODVALS = {"y?": ["", "y"], "-{1,2}": ["-", "--"], "_": ["_"], "(?:uu|v)": ["uu", "v"]}
TAGS = ["A", "BB", "T1", "a", "A1"]
DELIMS = [["<", ">"], ["<", ">"], ["<", ">"], ["{%", "%}"], ["~(", ")~"], ["@", ";"], ["<<", ">>"], ["[:", ":]"]]
LITS = ["foo", "k", "=", "foo", "R"]
piece = st.one_of(st.tuples(st.just("tag"), st.sampled_from(TAGS + ["NOPE", "B"])), st.tuples(st.just("tag"), st.sampled_from(TAGS)), st.tuples(st.just("lit"), st.sampled_from(LITS)), st.tuples(st.just("other"), st.sampled_from(TAGS)), st.tuples(st.just("half"), st.sampled_from(["<", ">"]))).map(list)
rule = st.fixed_dictionaries(dict(kind=st.sampled_from(["body", "body", "rawbody", "full", "header", "uri"]), pieces=st.lists(piece, min_size=1, max_size=5), mods=st.lists(st.tuples(st.sampled_from(["pre", "inter", "post"]), st.sampled_from(["P1", "P2", "PX"]), st.integers(0, 5), st.sampled_from([None, None, 0, 1, 2, 3])).map(list), max_size=3, unique_by=lambda m: m[0]),
                                  listed=st.sampled_from([True, True, True, False]), picks=st.lists(st.integers(0, 5), min_size=12, max_size=12), text=st.sampled_from(["expand", "expand", "expand", "nomods", "raw"])))
case_st = st.fixed_dictionaries(dict(delim=st.sampled_from(DELIMS), defs=st.lists(st.tuples(st.sampled_from(TAGS), st.sampled_from(sorted(TAGVALS))).map(list), min_size=1, max_size=6),
                                     mods=st.lists(st.tuples(st.sampled_from(["pre", "inter", "post"]), st.sampled_from(["P1", "P2"]), st.sampled_from(sorted(MODVALS))).map(list), max_size=5), rules=st.lists(rule, min_size=1, max_size=5), junk=st.booleans(), order=st.randoms(use_true_random=False).map(lambda r: r.randrange(10**6))))


def body(case, w, note):
    import random
    s, e = case["delim"]
    tags = dict(case["defs"])
    mods = dict(((k, n), v) for k, n, v in case["mods"])
    lines = ["replace_tag %s %s" % (n, v) for n, v in case["defs"]] + ["replace_%s %s %s" % (k, n, v) for k, n, v in case["mods"]]
    if case["junk"]:
        lines += ["replace_tag LONELY", "replace_rules R_NOSUCH R_SCOREONLY", "score R_SCOREONLY 2"]
    cases, plain, texts = [], [], []
    special = "".join(chr(c) for c in range(33, 127) if not chr(c).isalnum())
    for i, r in enumerate(case["rules"]):
        name = "R_%d" % i

        def wr(x):
            # delimiters as written; all of them are also valid as plain regex text or never matched
            return s + x + e
        src = []
        for k, v in r["pieces"]:
            src.append({"tag": lambda: wr(v), "lit": lambda: v, "other": lambda: "(?P<%s%d>o)" % (v, len(src)) if s != "<" else "\\<%s>" % (v + "_"), "half": lambda: v if s == "<" else "h"}[k]())
        pos = {}
        for k, n, at, again in r["mods"]:
            for x in (at, again):
                if x is not None:
                    pos.setdefault(x % (len(src) + 1), []).append((k, n))
        used = {}
        written = []
        for j in range(len(src) + 1):
            for k, n in pos.get(j, []):
                written.append(wr("%s %s" % (k, n)))
                if (k, n) in mods:
                    used[k] = mods[(k, n)]
            if j < len(src):
                written.append(src[j])
        pattern = "".join(written)
        expanded = pattern
        if r["listed"]:
            out = []
            items = []
            for j in range(len(src) + 1):
                for k, n in pos.get(j, []):
                    if (k, n) not in mods:
                        items.append(("text", wr("%s %s" % (k, n))))
                if j < len(src):
                    k, v = r["pieces"][j]
                    items.append(("tag", v) if k == "tag" and v in tags else ("text", src[j]))
            for j, (k, v) in enumerate(items):
                if k == "text":
                    out.append(v)
                else:
                    out.append(used.get("pre", "") + tags[v] + used.get("post", ""))
                    if j + 1 < len(items) and items[j + 1][0] == "tag":
                        out.append(used.get("inter", ""))
            expanded = "".join(out)
        # texts
        picks = list(r["picks"]) + [0] * 20

        def pick(options):
            return options[picks.pop() % len(options)]
        t = []
        for j, (k, v) in enumerate(r["pieces"]):
            if k == "tag" and v in tags and r["text"] != "raw":
                mod = used if r["text"] == "expand" else {}
                t.append((pick(MODVALS[mod["pre"]]) if "pre" in mod else "") + pick(TAGVALS[tags[v]]) + (pick(MODVALS[mod["post"]]) if "post" in mod else ""))
                if j + 1 < len(r["pieces"]) and r["pieces"][j + 1][0] == "tag" and r["pieces"][j + 1][1] in tags and "inter" in mod:
                    t.append(pick(MODVALS[mod["inter"]]))
            else:
                t.append("o" if k == "other" and s != "<" else src[j].replace("\\", ""))
        texts.append("".join(t))

        def line(p):
            p = p.replace("/", "\\/")
            return "header %s X-Probe =~ /%s/" % (name, p) if r["kind"] == "header" else "%s %s /%s/" % (r["kind"], name, p)
        cases.append(line(pattern))
        plain.append(line(expanded))
        if r["listed"]:
            lines.append("replace_rules %s" % name)
    lines += cases
    rnd = random.Random(case["order"])
    defs = [l for l in lines if not l.startswith("replace_")]
    repl = [l for l in lines if l.startswith("replace_")]
    # keep the relative order of definitions
    both = [(rnd.random(), l) for l in defs]
    slots = sorted(rnd.random() for _ in repl)
    both += list(zip(slots, repl))
    text = ["loadplugin oa.plugins.replace_tags.ReplaceTags"]
    if s != "<" or case["order"] % 2:
        text += ["replace_start %s" % s, "replace_end %s" % e]
    text += [l for _, l in sorted(both)]
    msgs = ["Subject: s\nX-Probe: %s\n\n%s\n\nhttp://h.example.com/%s\n" % (t, t, t) for t in texts] + ["Subject: s\n\nnothing\n"]
    a, b, c = (w.call("core.scan", dict(files=[["a.cf", "\n".join(x) + "\n"]], msgs=msgs)) for x in (text, plain, cases))
    check(a["load_exc"] is None, "the configuration failed to load", lines=text, exc=a["load_exc"])
    if b["load_exc"] is not None:
        check(False, "harness: expanded configuration failed", plain=plain, exc=b["load_exc"])
    hit = False
    for m, x, y, z in zip(msgs, a["results"], b["results"], c["results"]):
        check("exc" not in x and "exc" not in y, "scanning raised", x=x, y=y)
        check_eq(sorted(x["tests"]), sorted(y["tests"]), "matched rules against the expanded configuration", lines=text, expanded=plain, message=m)
        hit |= bool(x["tests"]) and sorted(x["tests"]) != sorted(z.get("tests", []))
    note.nontrivial(hit)
    note.event("delimiters %s %s" % (s, e), "hit" if hit else "no hit")


FACETS = [Facet("expand", case_st, body, quick=1200)]
