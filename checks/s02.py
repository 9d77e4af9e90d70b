"""S02: effective score of a rule."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import gen

PROPERTY = "S02"
RULE = ("cases are 1-5 hitting rules of any type with a generated score vector (none, 1, 4 or a wrong number of values), tflags set and placement of "
        "the option lines, under generated use_bayes/use_network/user_config/autolearn switches; non-trivial = some rule has 4 scores or a tflag that a switch decides on")
ASSUMPTIONS = ["scores are multiples of 0.25, so sums are exact whatever the addition order"]
KINDS = gen.RULE_KINDS + ["meta", "eval", "uri_detail"]
FLAGS = ["net", "nice", "learn", "userconf", "noautolearn", "multiple", "autolearn_body"]


@st.composite
def cases(draw):
    rules = []
    for i in range(draw(st.integers(1, 5))):
        n = draw(st.sampled_from([0, 1, 1, 4, 4, 4, 4, 2, 3, 5]))
        vec = draw(st.lists(st.one_of(gen.quarter(), st.sampled_from([0.0, 1.0, -1.0])), min_size=n, max_size=n))
        flags = draw(st.one_of(st.just([]), st.lists(st.sampled_from(FLAGS), unique=True, min_size=1, max_size=3)))
        rules.append(dict(name=gen.NAMES[i], kind=draw(st.sampled_from(KINDS)), vec=vec, flags=flags,
                          desc=draw(st.booleans()), order=draw(st.permutations([0, 1, 2, 3])), sep=draw(st.sampled_from([" ", "  ", "\t"]))))
    sw = dict((k, draw(st.sampled_from([None, "0", "1", "false", "true", "False", "True"]))) for k in ("use_bayes", "use_network", "user_config", "autolearn"))
    return dict(rules=rules, switches=sw, last=draw(st.booleans()))


DEFAULTS = dict(use_bayes=True, use_network=True, user_config=True, autolearn=False)


def model(case):
    on = dict((k, DEFAULTS[k] if v is None else v.lower() in ("1", "true")) for k, v in case["switches"].items())
    out = {}
    for r in case["rules"]:
        vec = r["vec"]
        if len(vec) not in (0, 1, 4):
            continue
        f = r["flags"]
        if ("net" in f and not on["use_network"]) or ("learn" in f and not on["use_bayes"]) or \
                ("userconf" in f and not on["user_config"]) or ("noautolearn" in f and on["autolearn"]):
            continue
        if not vec:
            s = -1.0 if "nice" in f else 1.0
        elif len(vec) == 1:
            s = vec[0]
        else:
            s = vec[{(False, False): 0, (False, True): 1, (True, False): 2, (True, True): 3}[on["use_bayes"], on["use_network"]]]
        if s:
            out[r["name"]] = s
    return out


def conf(case):
    lines = ["loadplugin oa.plugins.uri_detail.URIDetailPlugin", "loadplugin oa.plugins.header_eval.HeaderEval", "body __HIT /tokalpha/"]
    sw = ["%s %s" % kv for kv in sorted(case["switches"].items()) if kv[1] is not None]
    if not case["last"]:
        lines += sw
    for r in case["rules"]:
        if r["kind"] == "meta":
            d = "meta %s __HIT" % r["name"]
        elif r["kind"] == "eval":
            d = "header %s eval:check_for_missing_to_header()" % r["name"]
        elif r["kind"] == "uri_detail":
            d = "uri_detail %s raw =~ /tokalpha/" % r["name"]
        else:
            d = gen.rule_line(r["kind"], r["name"], "tokalpha")
        opts = [d]
        opts.append("score %s %s" % (r["name"], r["sep"].join(gen.fmt(x) for x in r["vec"])) if r["vec"] else "")
        opts.append("tflags %s %s" % (r["name"], r["sep"].join(r["flags"])) if r["flags"] else "")
        opts.append("describe %s Some text" % r["name"] if r["desc"] else "")
        lines += [opts[i] for i in r["order"]]
    if case["last"]:
        lines += sw
    return "\n".join(lines) + "\n"


def body(case, w, note):
    text = conf(case)
    raw = gen.probe_message(["tokalpha"])
    raw = raw.replace("To: rcpt@example.org\n", "")
    res = w.call("core.scan", dict(files=[["a.cf", text]], msgs=[raw], want=["matched_report", "evaluated"]))
    check(res["load_exc"] is None, "the configuration failed to load", conf=text, exc=res["load_exc"])
    out = res["results"][0]
    check("exc" not in out, "scanning raised", conf=text, out=out)
    exp = model(case)
    check_eq(sorted(out["tests"]), sorted(exp), "rules that matched", conf=text)
    check_eq(sorted(out["evaluated"]), sorted(exp), "rules that were evaluated", conf=text)
    check_eq(float(out["score"]), sum(exp.values()), "message score", conf=text)
    got = {}
    for line in out["matched_report"].replace("\r", "").split("\n"):
        if line.startswith("* "):
            _, s, name = line.split(" ")[:3]
            got[name] = float(s)
    check_eq(got, exp, "per-rule scores in the report", conf=text)
    note.nontrivial(any(len(r["vec"]) == 4 or set(r["flags"]) & {"net", "nice", "learn", "userconf", "noautolearn"} for r in case["rules"]))
    note.event(*["len%d" % len(r["vec"]) for r in case["rules"]])
    note.event(*["kind " + r["kind"] for r in case["rules"]])


FACETS = [Facet("score", cases(), body, quick=2000)]
