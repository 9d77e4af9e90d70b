"""G11: auto-learning fires only for confident verdicts that meet every requirement."""
import os
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

os.environ["VERIF_WARM"] = "sql"
PROPERTY = "G11"
RULE = ("cases are generated rule sets (all rule types incl. eval and meta rules, scores, flag combinations), thresholds, switches and messages that match any subset of the rules, scanned with the Bayes plugin on a scratch database; what is learned is compared with the documented requirements; "
        "non-trivial = a message is learned, or an extreme score is refused for exactly one reason")
ASSUMPTIONS = ["points are multiples of 1/4, so that sums are exact", "messages of one case have different IDs", "rules flagged learn count for the header and body requirements, as the existing tests fix"]
KINDS = ["header", "header", "body", "body", "uri", "rawbody", "full", "meta", "evalh", "evalb", "other", "urieval"]
FLAGS = ["", "", "", "", "", "noautolearn", "userconf", "learn", "net", "autolearn_force", "nice", "learn noautolearn", "net learn", "autolearn_force noautolearn", "autolearn_force net", "noautolearn nice"]
NAMES = ["BAYES_99", "BAYES_00"]
rule = st.tuples(st.sampled_from(KINDS), st.sampled_from([0.25, 0.5, 1, 2, 3, 3, 4, 5, 6, 8, 12, 2.75, 3.25, -0.25, -1, -1.25, -3, -8, 0]), st.sampled_from(FLAGS)).map(list)
case_st = st.fixed_dictionaries(dict(rules=st.lists(rule, min_size=1, max_size=7), names=st.sampled_from([[], [], ["BAYES_99"], ["BAYES_00"], NAMES]), spam=st.sampled_from([None, 6, 12, 4, 3]), ham=st.sampled_from([None, 0, -1, 0.25, 2]), on_error=st.sampled_from([None, None, "1", "0"]), required=st.sampled_from([None, 5, 2, 7, 20, -20]), msgs=st.lists(st.integers(0, 511), min_size=1, max_size=4), off=st.sampled_from([False] * 9 + [True])))


def define(i, r):
    kind, score, flags = r
    name = "R%d" % i
    word = "key%d" % i
    if kind == "header":
        out = ["header %s X-Keys =~ /%s/" % (name, word)]
    elif kind in ("body", "rawbody", "full", "uri"):
        out = ["%s %s /%s/" % (kind, name, word)]
    elif kind == "meta":
        out = ["body __M%d /%s/" % (i, word), "meta %s __M%d" % (name, i)]
    elif kind == "evalh":
        out = ["header %s eval:check_keys('%s')" % (name, word)]
    elif kind == "evalb":
        out = ["body %s eval:check_keys('%s')" % (name, word)]
    elif kind == "urieval":
        out = ["uri_detail %s raw =~ /%s/" % (name, word)]
    else:
        out = ["mimeheader %s X-Part =~ /%s/" % (name, word)]
    out.append("score %s %s" % (name, score))
    if flags:
        out.append("tflags %s %s" % (name, flags))
    return out


def decide(rules, hits, names, case, score):
    spam = 12.0 if case["spam"] is None else case["spam"]
    ham = 0.1 if case["ham"] is None else case["ham"]
    required = 5 if case["required"] is None else case["required"]
    points = header = body = learn = 0
    force = False
    for kind, sc, flags in [rules[i] for i in hits] + ([] if case["off"] else [["body", 0.0625, "learn"]] * len(names)):
        flags = flags.split()
        if not sc or "noautolearn" in flags or "userconf" in flags:
            continue
        if kind in ("header", "evalh"):
            header += sc
        elif kind in ("body", "evalb", "uri", "urieval"):
            body += sc
        elif kind == "meta" and "net" not in flags:
            header += sc
            body += sc
        if "learn" in flags:
            learn += sc
            continue
        force = force or "autolearn_force" in flags
        points += sc
    low = -99 if force else 3
    if points >= spam:
        reasons = [header < low, body < low, learn < -1, score <= required, case["on_error"] == "1" and "BAYES_99" in names]
        return None if any(reasons) else "s", sum(reasons)
    if points < ham:
        reasons = [learn > 1, score >= required, case["on_error"] == "1" and "BAYES_00" in names]
        return None if any(reasons) else "h", sum(reasons)
    return None, 0


def body(case, w, note):
    rules = [r if r[0] not in ("other",) else ["rawbody"] + r[1:] for r in case["rules"]]
    lines = ["bayes_min_spam_num 1000", "bayes_min_ham_num 1000", "use_network 1"]
    for i, r in enumerate(rules):
        lines += define(i, r)
    for n in NAMES:
        lines += ["body %s /%s/" % (n, n.lower()), "score %s 0.0625" % n, "tflags %s learn" % n]
    for opt, key in (("bayes_auto_learn_threshold_spam", "spam"), ("bayes_auto_learn_threshold_nonspam", "ham"), ("bayes_auto_learn_on_error", "on_error"), ("required_score", "required")):
        if case[key] is not None:
            lines.append("%s %s" % (opt, case[key]))
    if case["off"]:
        lines.append("use_bayes 0")
    # The rules of this one have the value 0 when Bayes is off: keep them on.
    plugins = ["loadplugin oa.plugins.bayes.BayesPlugin", "loadplugin oa.plugins.auto_learn_threshold.AutoLearnThreshold", "loadplugin oa.plugins.uri_detail.URIDetailPlugin", "loadplugin sut.keys.Keys"]
    if len(rules) % 2:
        plugins[0], plugins[1] = plugins[1], plugins[0]
    msgs, picked = [], []
    for n, mask in enumerate(case["msgs"]):
        hits = [i for i in range(len(rules)) if mask >> i & 1]
        keys = " ".join("key%d" % i for i in hits)
        links = " ".join("http://h.example/key%d" % i for i in hits if rules[i][0] in ("uri", "urieval"))
        picked.append(hits)
        msgs.append("Message-ID: <a%d@x.example>\nX-Keys: %s\nSubject: s\n\n%s %s %s\n" % (n, keys, keys, links, " ".join(x.lower() for x in case["names"])))
    res = w.call("learn.bayes", dict(lines=lines, plugins=plugins, msgs=msgs, ops=[["scan", i] for i in range(len(msgs))], scores=True))
    seen = {}
    for n, r in enumerate(res["results"]):
        info = dict(lines=lines, message=msgs[n], tests=r.get("tests"), score=r.get("score"), plugins=plugins)
        check("exc" not in r, "the scan completes", exc=r.get("exc"), **info)
        got = [i for i in range(len(rules)) if "R%d" % i in r["tests"]]
        # score-0 rules are not evaluated
        check_eq(got, [i for i in picked[n] if rules[i][1] and not ("userconf" in rules[i][2] and i not in got) and not (case["off"] and "learn" in rules[i][2].split())], "matching rules", **info)
        if case["off"]:
            want, reasons = None, 9
        else:
            want, reasons = decide(rules, got, case["names"], case, r["score"])
        if want:
            seen["a%d@x.example" % n] = want
        note.nontrivial(want is not None or reasons == 1)
        note.event("learned %s" % want if want else "%d reasons against" % reasons)
        check_eq(dict(r["seen"]), seen, "messages learned so far", reasons=reasons, **info)


FACETS = [Facet("decision", case_st, body, quick=600)]
