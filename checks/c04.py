"""C04: options are a typed fold over the option lines."""
import json
import os
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "C04"
RULE = ("cases are 1-25 option lines over the about 120 options of the core and of 1-4 loaded plugins (two files, valid, invalid and unknown values, clear lines), compared with a typed fold over a frozen table of types and defaults; "
        "non-trivial = some option is set at least twice or cleared after being set, and an invalid value occurs")
ASSUMPTIONS = ["the table of option types and defaults (data/options.json) records the documented interface at the pinned commit", "options whose names several loaded plugins declare go to the first one only and are not compared then"]
TABLE = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "options.json")))
SKIP = {"user_awl_dsn", "bayes_sql_dsn", "geodb", "geodb-ipv6", "trusted_networks", "dns_test_interval", "dns_available", "replace_pre", "replace_inter", "replace_post", "replace_tag"}
GOOD = {
    "int": [("0", 0), ("1", 1), ("7", 7), ("42", 42), ("-3", -3), ("+5", 5), ("007", 7)],
    "float": [("0", 0.0), ("2.5", 2.5), ("-1", -1.0), (".5", 0.5), ("1e2", 100.0), ("7.", 7.0)],
    "timevalue": [("3", 3.0), ("2.5", 2.5), ("10s", 10.0), ("2m", 120.0), ("1h", 3600.0), ("1.5d", 129600.0), ("1w", 604800.0), ("0.5w", 302400.0), ("2.5h", 9000.0), ("1.25m", 75.0), ("0.5s", 0.5), ("0", 0.0)],
    "bool": [("1", True), ("0", False), ("true", True), ("True", True), ("TRUE", True), ("false", False), ("no", False), ("2", False)],
}
BAD = {"int": ["x", "1.5", "1,5", "5x", "--1", "0x10", "1 2"], "float": ["x", "1,5", "nan", "inf", "-infinity", "1e999", "1 2", "2.5x", "0x1p3"],
       "timevalue": ["x", "-5", "-0.5", "-0.5d", "-1", "5x", "-2m", "m", "nan", "infs", "1 2", "9e300w", "5M x"]}
TOK = ["alpha", "beta", "x@example.com", "*.example.org", "10.1.0.0/16", "!10.2.0.0/16", "Value-One", "e%s%d", "_Z", "(LIST)", "a=b", "https://h/p?q", "/re/", "[1.2.3.4]:53", "-1"]
words = st.lists(st.sampled_from(TOK), min_size=1, max_size=4)


def key_strategy(owners):
    return st.sampled_from(owners).flatmap(lambda o: st.sampled_from([k for k in sorted(TABLE[o]) if k not in SKIP]).map(lambda k: [o, k]))


BY_TYPE = {}
for _o in sorted(TABLE):
    for _k in sorted(TABLE[_o]):
        if _k not in SKIP:
            BY_TYPE.setdefault(TABLE[_o][_k][0], []).append([_o, _k])


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(sorted(BY_TYPE)))
    focus = draw(st.sampled_from(BY_TYPE[kind]))
    plugs = draw(st.lists(st.sampled_from(sorted(k for k in TABLE if k)), min_size=1, max_size=4, unique=True))
    pool = draw(st.lists(key_strategy([""] + plugs), min_size=1, max_size=5, unique_by=tuple))
    if focus[0] and focus[0] not in plugs:
        plugs.append(focus[0])
    if focus not in pool:
        pool.append(focus)
    lines = []
    for _ in range(draw(st.integers(1, 25))):
        o, k = draw(st.sampled_from(pool))
        t = TABLE[o][k][0]
        clears = [c for c, v in TABLE[o].items() if v[0] == "clear" and k in v[1]]
        if clears and draw(st.integers(0, 3)) == 0:
            lines.append([o, clears[0], "", True])
        elif t == "clear":
            lines.append([o, k, "", True])
        elif t in BAD and draw(st.integers(0, 3)) == 0:
            lines.append([o, k, draw(st.sampled_from(BAD[t])), False])
        elif t in GOOD:
            lines.append([o, k, draw(st.sampled_from(GOOD[t]))[0], True])
        else:
            v = " ".join(draw(words)) if t not in ("list", "append_list") else draw(st.sampled_from([",", ", ", " ", ","])).join(draw(words))
            lines.append([o, k, v, True])
    return dict(plugins=plugs, lines=lines, split=draw(st.integers(0, 25)), junk=draw(st.integers(0, 25)), pad=draw(st.sampled_from([" ", "  ", "\t", " \t "])))


def body(case, w, note):
    plugs = case["plugins"]
    table = {"": TABLE[""]}
    for p in plugs:
        table[p] = TABLE[p]
    owners = {}
    for o in [""] + plugs:
        for k in table[o]:
            owners.setdefault(k, []).append(o)
    state = {(o, k): v[1] for o in table for k, v in table[o].items() if v[0] != "clear"}
    texts = ["loadplugin oa.plugins.%s\n" % p for p in plugs]
    out = []
    seen, again, bad = set(), False, False
    for n, (o, k, v, ok) in enumerate(case["lines"]):
        out.append("%s%s%s\n" % (k, case["pad"], v))
        t, extra = table[o][k]
        again = again or (o, k) in seen
        seen.add((o, k))
        if t == "clear":
            for r in extra:
                again = again or bool(state[(o, r)])
                state[(o, r)] = []
        elif t in ("int", "float", "timevalue"):
            if ok:
                state[(o, k)] = dict(GOOD[t])[v]
            bad = bad or not ok
        elif t == "bool":
            state[(o, k)] = dict(GOOD[t])[v]
        elif t == "str":
            state[(o, k)] = v
        elif t == "list":
            state[(o, k)] = v.split() if o.startswith("textcat") else v.split(",")
        elif t == "split":
            state[(o, k)] = v.split()
        elif t == "append_list":
            state[(o, k)] = state[(o, k)] + v.split(",")
        elif t == "append":
            state[(o, k)] = state[(o, k)] + [v]
        else:
            state[(o, k)] = state[(o, k)] + v.split()
    cut = min(case["split"], len(out))
    a, b = out[:cut], out[cut:]
    (b if case["junk"] % 2 else a).insert(case["junk"] % (len(a) + 1), "some_unknown_option 5\n")
    files = [["a.cf", "".join(texts + a)], ["b.cf", "".join(b)]]
    keys = {}
    for (o, k) in state:
        if k in SKIP or len(owners[k]) > 1:
            continue
        keys.setdefault(o.rpartition(".")[2], []).append(k)
    res = w.call("conf.options", dict(files=files, keys={o: sorted(v) for o, v in keys.items()}))
    check(res["load_exc"] is None, "the configuration failed to load", files=files, exc=res["load_exc"], tb=res.get("tb"))
    for o in table:
        short = o.rpartition(".")[2]
        for k in keys.get(short, ()):
            exp, got = state[(o, k)], res["values"][short][k]
            if (o, k) in (("", "report"), ("", "unsafe_report")):
                # joined into a template of tags
                exp = "\n".join(exp).replace("%", "%%")
            check(type(got) is type(exp) or (isinstance(exp, (int, float)) and isinstance(got, (int, float)) and (not isinstance(exp, bool) or (o, k) not in seen)), "type of option %s" % k, got=got, expected=exp)
            check_eq(got, exp, "option %s of %s" % (k, o or "the core"), files=files)
    note.nontrivial(again and bad)
    note.event("plugins %d" % len(plugs))


FACETS = [Facet("fold", cases(), body, quick=1500)]
