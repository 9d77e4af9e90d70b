"""C01: last-definition-wins fold of configuration lines, in any layout."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import gen

PROPERTY = "C01"
RULE = ("cases are trees of files (1-3 top files, nested includes in other directories) holding shuffled definition/score/describe/priority/tflags lines over at most 6 names, with redefinitions, "
        "comments, escaped #, blanks, tabs, CRLF, unknown lines and missing includes; non-trivial = some name has two lines of one kind, at least one include holds a rule line, and some rule matches; or chains of up to 10 includes and circles of them (non-trivial = at least two levels or a circle)")
NAMES = ["R_ONE", "R_TWO", "R_TEN", "R_ONE1", "__R_SUB", "R_SIX"]
WORDS = gen.WORDS[:4]
KINDS = ["body", "rawbody", "full", "uri", "header", "exists", "mimeheader", "all", "hash", "eval", "meta", "body"]
SCORES = [1.0, 2.0, -1.5, 0.25, 0.0, 5.0, 1.0, 3.75]
DESCS = ["First text", "second: text", "a longer, third text", "with \\# inside", "100% sure_", "x"]
PRIOS = [0, 1, 2, -1, 10]

name = st.sampled_from(NAMES)
line = st.one_of(
    st.fixed_dictionaries(dict(t=st.just("def"), n=name, kind=st.sampled_from(KINDS), word=st.sampled_from(WORDS))),
    st.fixed_dictionaries(dict(t=st.just("def"), n=name, kind=st.sampled_from(KINDS), word=st.sampled_from(WORDS))),
    st.fixed_dictionaries(dict(t=st.just("score"), n=name, v=st.sampled_from(SCORES))),
    st.fixed_dictionaries(dict(t=st.just("describe"), n=name, v=st.sampled_from(DESCS))),
    st.fixed_dictionaries(dict(t=st.just("priority"), n=name, v=st.sampled_from(PRIOS))),
    st.fixed_dictionaries(dict(t=st.just("tflags"), n=name, v=st.lists(st.sampled_from(["nice", "net", "userconf", "learn", "multiple"]), min_size=1, max_size=2))),
    st.fixed_dictionaries(dict(t=st.just("noise"), v=st.sampled_from(["", "# body R_ONE /x/", "   ", "\t# include nothere.cf", "frobnicate R_ONE 3", "single", "bodyx R_TWO /tokalpha/", "include missing.cf",
                                                                     "require_version 3.004", "scores R_ONE 9", "#", "unknown_option a b c # d"]))))
deco = st.fixed_dictionaries(dict(lead=st.sampled_from(["", "", "  ", "\t"]), sep=st.sampled_from([" ", " ", "   ", "\t", " \t "]), trail=st.sampled_from(["", "", "  ", "\t", " # comment", "# comment", " # body R_ONE /zzz/", " # a # b"]),
                                  eol=st.sampled_from(["\n", "\n", "\r\n"])))
item = st.tuples(line, deco).map(list)
node = st.recursive(st.lists(item, min_size=1, max_size=6), lambda s: st.lists(st.one_of(item, st.fixed_dictionaries(dict(inc=s, sub=st.booleans())), item), min_size=1, max_size=6), max_leaves=8)
case_st = st.fixed_dictionaries(dict(files=st.lists(node, min_size=1, max_size=3), msgs=st.lists(st.sets(st.sampled_from(WORDS)).map(sorted), min_size=2, max_size=2),
                                     net=st.booleans(), bayes=st.booleans(), noeol=st.booleans()))


def text(l, d):
    s = d["sep"]
    if l["t"] == "noise":
        return d["lead"] + l["v"]
    if l["t"] == "def":
        if l["kind"] == "hash":
            body = "body %s /%s\\#x/" % (l["n"], l["word"])
        elif l["kind"] == "eval":
            body = "header %s eval:check_for_missing_to_header()" % l["n"]
        elif l["kind"] == "meta":
            body = "meta %s __BASE && !__NEVER" % l["n"]
        else:
            body = gen.rule_line(l["kind"], l["n"], l["word"])
        a, b, c = body.split(" ", 2)
        out = a + s + b + s + c
    elif l["t"] == "tflags":
        out = "tflags%s%s%s%s" % (s, l["n"], s, " ".join(l["v"]))
    elif l["t"] == "score":
        out = "score%s%s%s%s" % (s, l["n"], s, gen.fmt(l["v"]))
    else:
        out = "%s%s%s%s%s" % (l["t"], s, l["n"], s, l["v"])
    return d["lead"] + out + d["trail"]


def layout(case):
    files, flat = [], []

    def emit(n, path, top):
        out = []
        for it in n:
            if isinstance(it, dict):
                sub = "inc%d.cf" % len(files)
                files.append(None)
                pos = len(files) - 1
                p = ("d%d/" % pos if it["sub"] else "") + sub
                out.append("include %s\n" % p)
                files[pos] = emit(it["inc"], (path.rsplit("/", 1)[0] + "/" if "/" in path else "") + p, False)
            else:
                l, d = it
                flat.append((l, top))
                out.append(text(l, d) + d["eol"])
        t = "".join(out)
        if case["noeol"]:
            t = t.rstrip("\r\n")
        return [path + ("" if top else "!"), t]
    tops = []
    for i, n in enumerate(case["files"]):
        tops.append(emit(n, "top%d.cf" % i, True))
    return tops + files, flat


def hits(l, words):
    if l["kind"] == "eval":
        return True
    if l["kind"] == "meta":
        return True
    return l["word"] in words


def body(case, w, note):
    files, flat = layout(case)
    head = ["base.cf", "loadplugin oa.plugins.header_eval.HeaderEval\nbody __BASE /some text/\nbody __NEVER /absenttoken/\nuse_network %d\nuse_bayes %d\n" % (case["net"], case["bayes"])]
    msgs = []
    for words in case["msgs"]:
        raw = gen.probe_message(words).replace("To: rcpt@example.org\n", "") + "".join("%s#x\n" % x for x in words)
        msgs.append(raw)
    res = w.call("core.scan", dict(files=[head] + files, msgs=msgs, want=["evaluated", "matched_report"]))
    check(res["load_exc"] is None, "the configuration failed to load", files=files, exc=res["load_exc"], tb=res.get("tb"))
    rules, dup = {}, False
    for l, top in flat:
        if l["t"] == "noise":
            continue
        r = rules.setdefault(l["n"], {})
        dup = dup or l["t"] in r
        r[l["t"]] = l if l["t"] == "def" else l["v"]
    live = []
    for n, r in rules.items():
        if "def" not in r or n.startswith("__"):
            continue
        fl = r.get("tflags", [])
        s = r.get("score", -1.0 if "nice" in fl else 1.0)
        if s == 0 or ("net" in fl and not case["net"]) or ("learn" in fl and not case["bayes"]):
            continue
        live.append((n, s, r.get("priority", 0), r.get("describe", "No description available."), r["def"]))
    live.sort(key=lambda x: -x[2])
    any_hit = False
    for words, out in zip(case["msgs"], res["results"]):
        check("exc" not in out, "scanning raised", out=out)
        check_eq(out["evaluated"], [x[0] for x in live], "evaluated rules", files=files)
        hit = [x for x in live if hits(x[4], words)]
        any_hit = any_hit or bool(hit)
        check_eq(out["tests"], [x[0] for x in hit], "matched rules", files=files, words=words)
        check_eq(float(out["score"]), float(sum(x[1] for x in hit)), "score", files=files)
        rep = [l for l in out["matched_report"].replace("\r", "").split("\n") if l.startswith("* ")]
        check_eq(len(rep), len(hit), "report lines", report=rep)
        for l, x in zip(rep, hit):
            check_eq(float(l.split(" ")[1]), float(x[1]), "score of %s in the report" % x[0], line=l)
            check(l.endswith(x[3]) and l.split(" ")[2] == x[0], "report line of %s" % x[0], line=l, expected=x[3])
    note.nontrivial(dup and any(not top and l["t"] != "noise" for l, top in flat) and any_hit)
    note.event("files %d" % len(files))


# -- includes within includes: a chain is followed, a circle is reported
chain_st = st.fixed_dictionaries(dict(depth=st.integers(0, 9), circle=st.one_of(st.none(), st.none(), st.integers(0, 9)), sub=st.lists(st.booleans(), min_size=10, max_size=10), before=st.lists(st.booleans(), min_size=10, max_size=10), wide=st.integers(0, 3)))


def nesting(case, w, note):
    """File i defines A<i> before and B<i> after the include of file i+1; the last may include an earlier one again."""
    paths, files, order = [], [], []
    for i in range(case["depth"] + 1):
        d = paths[-1].rpartition("/")[0] if paths else ""
        d = (d + "/" if d else "") + "d%d" % i if case["sub"][i] and i else d
        paths.append((d + "/" if d else "") + "f%d.cf" % i)

    def rel(i, j):
        import posixpath
        return posixpath.relpath(paths[j], posixpath.dirname(paths[i]) or ".")
    for i in range(case["depth"] + 1):
        lines = []
        if case["before"][i]:
            lines.append("body A%d /some/" % i)
        lines.append("score SHARED %d" % (i + 2))
        if i < case["depth"]:
            lines.append("include " + rel(i, i + 1))
        elif case["circle"] is not None:
            lines.append("include " + rel(i, min(case["circle"], i)))
        lines.append("body B%d /some/" % i)
        if i == 0:
            for k in range(case["wide"]):
                lines += ["include leaf.cf"] * 4
        files.append([paths[i] + ("" if i == 0 else "!"), "\n".join(lines) + "\n"])
    files.append(["leaf.cf!", "body LEAF /some/\n"])
    res = w.call("core.scan", dict(files=[["z.cf", "body SHARED /some/\n"]] + files, msgs=[gen.probe_message([])], want=["evaluated"]))
    if case["circle"] is not None:
        check_eq((res["load_exc"] or {"type": None})["type"] if isinstance(res["load_exc"], dict) else str(res["load_exc"]).partition(":")[0].rpartition(".")[2], "MaxRecursionDepthExceeded", "error for files that include each other", files=files)
    else:
        check(res["load_exc"] is None, "the configuration failed to load", files=files, exc=res["load_exc"])
        names = ["SHARED"] + ["A%d" % i for i in range(case["depth"] + 1) if case["before"][i]] + ["B%d" % i for i in range(case["depth"], -1, -1)] + (["LEAF"] if case["wide"] else [])
        check_eq(res["results"][0]["evaluated"], names, "rules in the order of the lines", files=files)
        check_eq(float(res["results"][0]["score"]), float(case["depth"] + 2 + len(names) - 1), "score: the last line for SHARED wins", files=files)
    note.nontrivial(case["depth"] >= 2 or case["circle"] is not None)
    note.event("circle" if case["circle"] is not None else "chain %d" % case["depth"])


FACETS = [Facet("fold", case_st, body, quick=2000), Facet("nesting", chain_st, nesting, quick=300)]
