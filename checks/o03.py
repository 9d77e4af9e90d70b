"""O03: reports and tags describe exactly the rules that matched."""
import re
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import gen

PROPERTY = "O03"
RULE = ("cases are generated rulesets (body, raw body, uri, full, header, meta rules; one or four scores; priorities; descriptions) x report / unsafe_report / add_header templates mixing literal text and tags x messages with any subset of the words and generated relays; every template output is compared with a model; "
        "non-trivial = at least two rules matched, one did not, and a template uses a tag listing them")
ASSUMPTIONS = ["the scores shown are those Python prints for the effective value", "unknown tags are shown as @@TAG@@ and _TESTS(,)_ is literal text, as the stable tests have it", "templates are printable ASCII without `#`; quotes around a template line are stripped"]
PREFIX = {"body": "BODY: ", "rawbody": "RAW: ", "uri": "URI: ", "full": "", "header": "", "exists": "", "all": "", "mimeheader": "BODY: ", "meta": ""}
TAGS = ["TESTS", "TESTS", "TESTSSCORES", "TESTSSCORES", "REPORT", "SUMMARY", "SCORE", "REQD", "YESNO", "YESNOCAPS", "CONTACTADDRESS", "VERSION", "HOSTNAME", "PREVIEW", "RELAYSTRUSTED", "RELAYSUNTRUSTED", "RELAYSINTERNAL", "RELAYSEXTERNAL", "LASTEXTERNALIP", "LASTEXTERNALRDNS", "LASTEXTERNALHELO", "IP", "RDNS", "HELO", "BY", "ID", "ENVFROM", "AUTH", "SCTYPE", "NOSUCHTAG"]
LITERALS = ["100% sure", "%s", "%(SCORE)s", "%%", "%d%", "plain text", "snake_case_name", "__", "_", "_lower_", "_TESTS(,)_", "a\\nb", "\\", "{0}", "$1 & <b>", "it's", 'say "x" now', ":", "@@X@@", "_A1_", " - ", "*"]
text = st.lists(st.one_of(st.sampled_from(TAGS).map(lambda t: ["tag", t]), st.sampled_from(LITERALS).map(lambda t: ["lit", t])), min_size=1, max_size=5)
DESCS = ["", "", "A description", "100% _SCORE_ sure", "%s %(x)s", "two  spaces", "it's \"quoted\"", "x: y; z"]
rule = st.fixed_dictionaries(dict(kind=st.sampled_from(["body", "rawbody", "uri", "full", "header", "exists", "all", "mimeheader", "meta"]), word=st.sampled_from(gen.WORDS[:5]), score=st.sampled_from(["", "", "1", "2.5", "-1.5", "0.1", "10", "0", "-0.25", "1 2 3 4", "0 0 0 1.5", "3 0 0 0", "100", "12.75"]), desc=st.sampled_from(DESCS), prio=st.sampled_from([0, 0, 0, -5, 7])))
relay = st.tuples(st.sampled_from(["10.0.0.1", "192.168.3.4", "8.8.8.8", "9.8.7.6"]), st.sampled_from(["ESMTP", "ESMTPSA"]), st.booleans())
case_st = st.fixed_dictionaries(dict(rules=st.lists(rule, min_size=3, max_size=8), words=st.sets(st.sampled_from(gen.WORDS[:5]), min_size=1).map(sorted) | st.just([]), report=st.lists(text, min_size=1, max_size=3) | st.just([]), unsafe=st.lists(text, max_size=2), head=text, clear=st.sampled_from([0, 0, 0, 1]), required=st.sampled_from([5, 0, -3, 2.5, 50, "on", "on", "above"]), contact=st.sampled_from(["", "admin@example.com", "call 100% us"]), relays=st.lists(relay, max_size=3), body=st.lists(st.sampled_from(["", "short line", "x" * 90, "50% _SCORE_ off", "another"]), max_size=3), again=st.booleans()))


def plain(parts):
    return "".join("_%s_" % v if k == "tag" else v for k, v in parts)


def pattern(text):
    """A regex for text whose version numbers are not known here."""
    return r"[0-9][0-9A-Za-z.\-]*".join(re.escape(x) for x in re.split("\2(?:SUB)?VERSION\2", text))


def body(case, w, note):
    conf, model = [], []
    names = gen.NAMES
    for i, r in enumerate(case["rules"]):
        n = names[i]
        if r["kind"] == "meta":
            conf += ["body __M%d /%s/" % (i, r["word"]), "meta %s __M%d" % (n, i)]
        else:
            conf.append(gen.rule_line(r["kind"], n, r["word"]))
        if r["score"]:
            conf.append("score %s %s" % (n, r["score"]))
        if r["desc"]:
            conf.append("describe %s %s" % (n, r["desc"]))
        if r["prio"]:
            conf.append("priority %s %d" % (n, r["prio"]))
        vals = [float(x) for x in (r["score"] or "1").split()]
        score = vals[3] if len(vals) == 4 else vals[0]
        model.append((-r["prio"], i, n, score, PREFIX[r["kind"]], r["desc"] or "No description available.", r["word"] in case["words"]))
    live = [m for m in model if m[3] != 0]
    live.sort(key=lambda m: m[:2])
    hit = [m for m in live if m[6]]
    raw = "".join("Received: from h%d.example.com (r%d.example.net [%s]) by mx%d.example.org (Postfix) with %s id ID%d; Mon, 1 Feb 2016 10:00:00 +0000\n" % (i, i, ip, i, proto, i) for i, (ip, proto, x) in enumerate(case["relays"]))
    lines = case["body"] + ["end"]
    raw += gen.probe_message(case["words"]).replace("some text here\n", "\n".join(lines) + "\n")
    if case["clear"]:
        conf += ["report dropped _TESTS_", "unsafe_report dropped too", "clear_report_template", "clear_unsafe_report_template"]
    conf += ["report %s" % plain(p) for p in case["report"]] + ["unsafe_report %s" % plain(p) for p in case["unsafe"]]
    total = 0
    for m in hit:
        total += m[3]
    required = case["required"] if not isinstance(case["required"], str) else round(total, 4) + (0.015625 if case["required"] == "above" else 0)
    conf += ["required_score %s" % (gen.fmt(required) if required == case["required"] else repr(required)), "add_header all Tmpl x %s x" % plain(case["head"]), "trusted_networks 10/8 192.168/16"]
    if case["contact"]:
        conf.append("report_contact %s" % case["contact"])
    msgs = [gen.probe_message(gen.WORDS[:2])] * case["again"] + [raw]
    res = w.call("core.scan", dict(files=[["a.cf", "\n".join(conf) + "\n"]], msgs=msgs, want=["report", "unsafe", "headers", "matched_report", "relays", "text"]))
    check(res["load_exc"] is None and all("exc" not in r for r in res["results"]), "failed", res=res, conf=conf)
    out = res["results"][-1]
    check_eq(out["tests"], [m[2] for m in hit], "matched rules in order", conf=conf, message=raw)
    total = sum(m[3] for m in hit)
    check(abs(out["score"] - total) < 1e-6, "total score", got=out["score"], expected=total)
    spam = out["score"] >= required
    report = "\r\n" + "\r\n".join("* %s %s %s%s" % (m[3], m[2], m[4], m[5]) for m in hit)
    num = lambda s: ("%d" % s if s == int(s) else "%0.1f" % s).rjust(4)
    summary = "\r\n".join("%s %s %s" % (num(m[3]), m[2].ljust(22), m[5]) for m in hit)
    check_eq(out["matched_report"], report, "list of matched rules", conf=conf, message=raw)

    def rel(lst):
        return " ".join("[ " + " ".join("%s=%s" % (k, r[k]) for k in ("ip", "rdns", "helo", "by", "ident", "envfrom", "intl", "id", "auth", "msa")) + " ]" for r in lst)
    data = dict(TESTS=",".join(m[2] for m in hit) or "none", TESTSSCORES=",".join("%s=%s" % (m[2], m[3]) for m in hit) or "none", REPORT=report, SUMMARY=summary, SCORE="%.1f" % out["score"], REQD="%.1f" % required,
                YESNO="Yes" if spam else "No", YESNOCAPS="YES" if spam else "NO", CONTACTADDRESS=case["contact"], HOSTNAME="scanner.example.net", NOSUCHTAG="@@NOSUCHTAG@@", SCTYPE="@@SCTYPE@@")
    btext = raw.split("\n\n", 1)[1]
    data["PREVIEW"] = " ".join(btext.split("\n")[:3])[:200] + "[...]"
    for k in ("trusted", "untrusted", "internal", "external"):
        data["RELAYS" + k.upper()] = rel(out[k])
    check_eq([r["ip"] for r in out["received"]], [r[0] for r in case["relays"]], "parsed relays", message=raw)
    first = out["external"][0] if out["external"] else None
    for k in ("IP", "RDNS", "HELO"):
        data["LASTEXTERNAL" + k] = first[k.lower()] if first else "@@LASTEXTERNAL%s@@" % k
    for k in ("IP", "RDNS", "HELO", "BY", "ID", "ENVFROM", "AUTH"):
        data[k] = out["received"][0][k.lower()] if out["received"] else "@@%s@@" % k

    def value(parts, pre="", post=""):
        s = (pre + plain(parts) + post).strip().strip("'\"")
        s = re.sub(r"_([A-Z]+)_", lambda m: "\0%s\1" % m.group(1), s)

        def tag(m):
            t = m.group(1)
            if t == "VERSION" or t == "SUBVERSION":
                return "\2%s\2" % t
            return str(data.get(t, "@@%s@@" % t))
        return re.sub("\0([A-Z]+)\1", tag, s)

    def same(got, parts_list, what, pre="", post="", one=False):
        exp = "\n".join(value(p, pre, post) for p in parts_list)
        if not one:
            exp += "\n"
        check(re.fullmatch(pattern(exp), got, re.S), what, got=got, expected=exp, conf=conf, message=raw)
    for key, opt in (("report", "report"), ("unsafe", "unsafe")):
        if case[opt]:
            same(out[key], case[opt], key + " template output")
        else:
            check_eq(out[key], "\n(no report template found)\n", key + " without template", conf=conf)
    hv = value(case["head"], "x ", " x")
    folded = "\n\t".join(l.rstrip() for l in hv.strip().splitlines() if l.strip())
    got = [h for h in ("\n" + out["headers"]).split("\nX-Spam-Tmpl: ")[1:]]
    check_eq(len(got), 1, "one header added", headers=out["headers"])
    check(re.fullmatch(pattern(folded), got[0].rstrip("\n"), re.S), "header template output", got=got[0], expected=folded, conf=conf, message=raw)
    used = [v for p in case["report"] + case["unsafe"] + [case["head"]] for k, v in p if k == "tag"]
    note.nontrivial(len(hit) >= 2 and len(hit) < len(live) and any(t in ("TESTS", "TESTSSCORES", "REPORT", "SUMMARY") for t in used))


FACETS = [Facet("templates", case_st, body, quick=1500)]
