"""S01: score, exclusion of sub-rules and zero rules, verdict."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import gen

PROPERTY = "S01"
RULE = ("cases are rulesets of 1-10 rules over every rule type with exact (dyadic) scores, a threshold placed on or next to "
        "the attainable totals and two messages hitting generated subsets; non-trivial = at least two enabled rules hit and at least one rule is "
        "disabled or misses")
ASSUMPTIONS = ["scores are dyadic (mostly multiples of 0.25), so sums are exact whatever the addition order"]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 10))
    rules = []
    for i in range(n):
        name = gen.NAMES[i % len(gen.NAMES)]
        name = draw(st.sampled_from(["", "", "", "", "__"])) + name
        kind = draw(st.sampled_from(gen.RULE_KINDS + ["meta_or", "meta_not", "meta_and"]))
        score = draw(st.one_of(st.none(), gen.quarter(), st.just(0.0), st.sampled_from([0.25, 5.0, 100.0, -100.0, 1 / 64, -1 / 64, 1 / 1024, 3 / 128, 1000.5, -0.0])))
        rules.append([name, kind, draw(st.integers(0, 7)), draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)), score])
    msgs = draw(st.lists(st.lists(st.integers(0, 7), unique=True, max_size=8), min_size=1, max_size=2))
    return dict(rules=rules, msgs=msgs, thr=draw(st.sampled_from(["default", "sum", "above", "below", "zero"])),
                safe=draw(st.sampled_from([0, 1, 2])))


def model(rules, words):
    hits = {}

    def hit(i, depth=0):
        name, kind, w, a, b, score = rules[i]
        if not kind.startswith("meta"):
            return w in words
        # metas refer to earlier rules only, so there are no cycles
        a, b = a % max(i, 1), b % max(i, 1)
        if i == 0:
            return False
        if kind == "meta_or":
            return hit(a) or hit(b)
        if kind == "meta_and":
            return hit(a) and hit(b)
        return not hit(a)
    total = 0.0
    matched = []
    evaluated = []
    for i, (name, kind, w, a, b, score) in enumerate(rules):
        s = 1.0 if score is None else score
        if name.startswith("__") or s == 0:
            continue
        evaluated.append(name)
        if hit(i):
            matched.append(name)
            total += s
    return matched, evaluated, total


def conf(case, thr):
    lines = ["report score=_SCORE_ reqd=_REQD_ yn=_YESNO_ caps=_YESNOCAPS_ tests=_TESTS_", "report_safe %d" % case["safe"],
             "add_header all Probe _YESNO_|_SCORE_|_REQD_|_TESTS_", "add_header spam Isspam yes", "add_header ham Isham yes"]
    rules = case["rules"]
    for i, (name, kind, w, a, b, score) in enumerate(rules):
        a, b = a % max(i, 1), b % max(i, 1)
        if kind.startswith("meta"):
            if i == 0:
                lines.append("body %s /never-there-xyz/" % name)
            else:
                lines.append("meta %s %s" % (name, {"meta_or": "%s || %s", "meta_and": "%s && %s", "meta_not": "!%s"}[kind] %
                                             ((rules[a][0], rules[b][0]) if kind != "meta_not" else rules[a][0])))
        else:
            lines.append(gen.rule_line(kind, name, gen.WORDS[w]))
        if score is not None:
            lines.append("score %s %s" % (name, gen.fmt(score)))
    if thr is not None:
        lines.append("required_score %s" % gen.fmt(thr))
    return "\n".join(lines) + "\n"


def body(case, w, note):
    words0 = set(case["msgs"][0])
    _, _, total0 = model(case["rules"], words0)
    thr = {"default": None, "sum": total0, "above": total0 + 0.25, "below": total0 - 0.25, "zero": 0.0}[case["thr"]]
    msgs = [gen.probe_message([gen.WORDS[i] for i in m]) for m in case["msgs"]]
    text = conf(case, thr)
    res = w.call("core.scan", dict(files=[["a.cf", text]], msgs=msgs, want=["evaluated", "report", "adjusted"]))
    check(res["load_exc"] is None, "the configuration failed to load", conf=text, exc=res["load_exc"])
    limit = 5.0 if thr is None else thr
    for m, out in zip(case["msgs"], res["results"]):
        check("exc" not in out, "scanning raised", conf=text, out=out)
        matched, evaluated, total = model(case["rules"], set(m))
        check_eq(out["tests"], matched, "matched rules", conf=text, words=m)
        check_eq(out["evaluated"], evaluated, "evaluated rules", conf=text, words=m)
        check_eq(float(out["score"]), total, "score", conf=text, words=m)
        spam = total >= limit
        check_eq(out["spam"], spam, "verdict", conf=text, words=m, total=total, limit=limit)
        exp = "score=%.1f reqd=%.1f yn=%s caps=%s tests=%s" % (total, limit, "Yes" if spam else "No", "YES" if spam else "NO",
                                                          ",".join(matched) or "none")
        check_eq(out["report"].strip(), exp, "report", conf=text)
        head = out["adjusted"].split("\n\n", 1)[0].split("\n")
        check(("X-Spam-Isspam: yes" in head) == spam, "spam header present iff spam", head=head, total=total, limit=limit)
        check(("X-Spam-Isham: yes" in head) == (not spam), "ham header present iff ham", head=head, total=total, limit=limit)
        disabled = len(case["rules"]) - len(evaluated)
        note.nontrivial(len(matched) >= 2 and (disabled or len(matched) < len(evaluated)))
        note.event("spam" if spam else "ham", "at threshold" if total == limit else "off threshold")


def proto_body(case, w, note):
    """The CHECK, SYMBOLS and REPORT_IFSPAM replies carry the same verdict."""
    words = set(case["msgs"][0])
    matched, evaluated, total = model(case["rules"], words)
    thr = {"default": None, "sum": total, "above": total + 0.25, "below": total - 0.25, "zero": 0.0}[case["thr"]]
    limit = 5.0 if thr is None else thr
    spam = total >= limit
    text = conf(case, thr)
    raw = gen.probe_message([gen.WORDS[i] for i in case["msgs"][0]])
    reqs = [dict(data="%s SPAMC/1.2\r\nContent-length: %d\r\n\r\n%s" % (c, len(raw), raw)) for c in ("CHECK", "SYMBOLS", "REPORT_IFSPAM")]
    res = w.call("daemon.session", dict(files=[["a.cf", text]], requests=reqs))
    for cmd, r in zip(("CHECK", "SYMBOLS", "REPORT_IFSPAM"), res["replies"]):
        check(r["exc"] is None, "the request failed", reply=r, conf=text)
        head, _, tail = r["reply"].partition("\r\n\r\n")
        line = [l for l in head.split("\r\n") if l.lower().startswith("spam:")]
        check_eq(len(line), 1, "one Spam: line", reply=r["reply"])
        verdict, nums = line[0].split(":", 1)[1].split(";")
        score, lim = [float(x) for x in nums.split("/")]
        check_eq(verdict.strip(), "True" if spam else "False", "verdict in %s reply" % cmd, conf=text, total=total, limit=limit)
        check_eq("%.1f" % score, "%.1f" % float("%.1f" % total), "score in %s reply" % cmd, conf=text)
        check_eq(lim, limit, "threshold in %s reply" % cmd, conf=text)
        if cmd == "SYMBOLS":
            check_eq(tail.strip(), ",".join(matched), "symbols", conf=text)
        if cmd == "REPORT_IFSPAM":
            check_eq(bool(tail.strip()), spam, "report present iff spam", conf=text, reply=r["reply"])
    note.nontrivial(len(matched) >= 2)
    note.event("spam" if spam else "ham")


FACETS = [Facet("sum", cases(), body, quick=1600), Facet("reply", cases(), proto_body, quick=500)]
