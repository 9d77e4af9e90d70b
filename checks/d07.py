"""D07: the command line handles every message given to it, each on its own."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from checks.d01 import norm

PROPERTY = "D07"
RULE = ("cases are generated lists of message files, directories (with subdirectories, dangling links, repeated names) and the standard input, with every mode of the script (adjusted message, -R, -t, -r, -k, paranoid, no lazy mode) and with configurations that have errors or are missing; output, calls of the report hooks and exit are compared with direct scans of the single messages in the order given; "
        "non-trivial = at least three messages are given and one of them is in a directory")
ASSUMPTIONS = ["main() is run in the process of the harness with its standard streams replaced"]
CONF = "loadplugin sut.recorder.RecA\nloadplugin sut.recorder.RecB\nbody B_A /tokalpha/\nscore B_A 3\nbody B_B /tokbravo/\nscore B_B 2.5\ndescribe B_B second\nadd_header all Tests _TESTS_\nheader H_S Subject =~ /caf\\xc3\\xa9|caf\\xe9|caf/\nreport _SUMMARY_ end\n"
BROKEN = "score B_A abc\nbody B_C /(/\nbogus line\n"
text = st.tuples(st.sampled_from(["Subject: one\n", "Subject: caf\u00e9\nFrom: a@b.org\n", "", "X: y\n"]), st.sampled_from(["tokalpha\n", "tokbravo tokalpha \u20ac\n", "", "nothing", "tokalpha\r\nline\r\n"])).map(lambda t: t[0] + "\n" + t[1])
data = st.one_of(text.map(lambda s: s.encode("utf-8").decode("latin-1")), text.map(lambda s: s.replace("\u20ac", "E")), st.just("\xff\xfe broken \xe9\n\ntokalpha \xe9\n"))
names = st.sampled_from(["a.eml", "b.eml", "10", "9", "Z", ".hidden", "x y", "é", "cur"])
directory = st.lists(st.tuples(names, st.one_of(data, data, data, st.none(), st.just("@dangling"))), max_size=5, unique_by=lambda t: t[0])
case_st = st.fixed_dictionaries(dict(files=st.lists(data, min_size=1, max_size=3), dirs=st.lists(directory, min_size=1, max_size=2), stdin=data, order=st.one_of(st.lists(st.sampled_from(["f0", "f1", "f2", "d0", "d1", "d0", "-"]), max_size=5), st.lists(st.sampled_from(["f0", "d0", "d1", "-"]), min_size=2, max_size=5)), slash=st.booleans(),
                                     mode=st.sampled_from([[], ["-R"], ["-t"], ["-r"], ["-k"], ["--report"], ["--revoke"], ["-R", "-t"]]), lazy=st.booleans(), paranoid=st.booleans(), conf=st.sampled_from(["good"] * 10 + ["broken", "none", "loop"])))


def body(case, w, note):
    tree = [["f%d" % i, t] for i, t in enumerate(case["files"])]
    for i, d in enumerate(case["dirs"]):
        tree.append(["d%d" % i, None])
        tree += [["d%d/%s" % (i, n), t] for n, t in d]
    order = [o for o in case["order"] if o == "-" or o in dict(tree)]
    # the standard input can be read only once
    order = [o for i, o in enumerate(order) if o != "-" or "-" not in order[:i]]
    msgs = []
    for o in order or ["-"]:
        if o == "-":
            msgs.append(case["stdin"])
        elif o[0] == "f":
            msgs.append(case["files"][int(o[1])])
        else:
            msgs += [t for n, t in sorted(case["dirs"][int(o[1])]) if t is not None and t != "@dangling"]
    files = {"good": [["a.cf", CONF]], "broken": [["a.cf", CONF + BROKEN]], "none": [], "loop": [["a.cf", CONF], ["b.cf", "include b.cf\n"]]}[case["conf"]]
    args = list(case["mode"]) + ([] if case["lazy"] else ["-dl"]) + (["--paranoid"] if case["paranoid"] else [])
    args += [o + "/" if o[0] == "d" and case["slash"] else o for o in order]
    res = w.call("daemon.cli_many", dict(files=files, tree=tree, stdin=case["stdin"], args=args))
    info = dict(args=args, case=case, exc=res["exc"], tb=res["tb"])
    hooks = [c for c in res["calls"]]
    if case["conf"] in ("none", "loop") or (case["conf"] == "broken" and case["paranoid"]):
        check_eq(res["exc"], "SystemExit: 1", "exit of the script", **{k: v for k, v in info.items() if k != "exc"})
        check_eq(res["out"], "", "output", **info)
        check_eq(hooks, [], "hooks", **info)
        note.event("refused")
        return
    check(res["exc"] is None, "the script fails", **info)
    decoded = [m.encode("latin-1").decode("utf-8", "ignore") for m in msgs]
    mode = case["mode"]
    if mode and mode[0] in ("-r", "-k", "--report", "--revoke"):
        name = "report" if mode[0] in ("-r", "--report") else "revoke"
        check_eq(res["out"], "%d message(s) examined\n" % len(msgs), "output", **info)
        want = []
        for m in decoded:
            want += [[name, "RecA", m], [name, "RecB", m]]
        check_eq([[c[0], c[1], norm_eol(c[2])] for c in hooks if c[0] != "hook"], [[a, b, norm_eol(m)] for a, b, m in want], "calls of the plugins", **info)
        note.event(name)
    else:
        want = ""
        if msgs:
            direct = w.call("core.scan", dict(files=files, msgs=decoded, want=["report", "adjusted"]))
            check(direct["load_exc"] is None, "direct load failed", res=direct)
            for r in direct["results"]:
                check("exc" not in r, "direct scan failed", res=r)
                want += (r["report"] if "-R" in mode else r["adjusted"]) + "\n"
                if "-t" in mode and "-R" not in mode:
                    want += r["report"] + "\n"
        check_eq(norm(res["out"]), norm(want), "output", **info)
        check_eq(hooks, [], "hooks", **info)
        note.event("scan")
    note.nontrivial(len(msgs) >= 3 and any(o[0] == "d" for o in order))


def norm_eol(s):
    return s.replace("\r\n", "\n")


FACETS = [Facet("messages", case_st, body, quick=500)]
