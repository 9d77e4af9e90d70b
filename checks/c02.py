"""C02: a bad configuration line costs only itself."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import gen

PROPERTY = "C02"
RULE = ("cases insert 1-8 corrupted lines (catalogue of over 120 of every kind, garbage bytes, or randomly mutated rule lines) at random positions of a generated well-formed configuration and compare every output with the clean one, "
        "in both modes; non-trivial = at least two different corrupted lines and a rule that matches")

# class: S = must be refused in paranoid mode; W = only ignored
S_LINES = [
    "body {b}", "score {b}", "describe {b}", "tflags {b}", "priority {b}", "header {b}", "meta {b}", "uri {b}", "full {b}", "mimeheader {b}", "eval {b}", "body", "score", "meta",
    "body {b} /unterminated", "body {b} /(unclosed/", "body {b} /[a-/", "body {b} noslash", "body {b} m{{abc", "rawbody {b} /*x/", "full {b} /(?P<x>a)(?P<x>b)/", "uri {b} /a{{3,1}}/", "body {b} //", "rawbody {b} /+/",
    "header {b} Subject", "header {b} Subject ~= /x/", "header {b} Subject:bogus =~ /x/", "header {b} Subject =~ /(x/", "header {b} Subject =~ x", "mimeheader {b} foo", "mimeheader {b} X-Y =~ /(/", "mimeheader {b} X-Y:addr =~ /x/",
    "meta {b} NO_SUCH_RULE", "meta {b} (G_ONE", "meta {b} G_ONE &&", "meta {b} && G_ONE", "meta {b} G_ONE NO_SUCH", "meta {b} G_ONE G_TWO", "meta {b} {b}", "meta {b} )", "meta {b} G_ONE = 1", "meta {b} 1 +* 2", "meta {b} import os",
    "eval {b} no_such_eval()", "body {b} eval:no_such_eval()", "header {b} eval:check_for_missing_to_header(", "header {b} eval:check_subject_in_whitelist(a b)", "header {b} eval:1x()", "header {b} eval:", "header {b} eval:check_for_missing_to_header(1/0)",
    "header {b} eval:check_for_missing_to_header(undefined_name)", "body {b} eval:(((", "body {b} /x/\nscore {b} abc", "body {b} /x/\nscore {b} 1 2", "body {b} /x/\nscore {b} 1 2 3 4 5", "body {b} /./\nscore {b} nan", "body {b} /./\nscore {b} 1,5",
    "body {b} /./\nscore {b} inf", "score {b} 3", "describe {b} lonely description", "tflags {b} net", "priority {b} 5",
    "required_score abc", "required_score nan", "required_score 5,5", "report_safe one", "report_safe 1.5", "default_dns_timeout x", "default_dns_lifetime ten", "always_trust_envelope_sender yes",
    "add_header all", "add_header", "add_header purple X y", "add_header spam Name", "remove_header all", "remove_header purple X", "remove_header", "lang en_US", "lang", "lang en_US describe", "lang en_US body {b}",
    "uri_detail {b} raw =~ /(/", "uri_detail {b}", "spf_timeout xx", "bayes_auto_learn_threshold_spam abc", "shortcircuit_spam_score many",
]
W_LINES = [
    "trusted_networks 300.1.1.1", "trusted_networks abc 10.0.0.0/99 / ! [] ::1:::", "internal_networks !", "msa_networks zzz", "msa_networks 1.2.3/", "internal_networks 2001:zz::/32 1.2.3.4.5", "trusted_networks", "dns_server foo bar", "dns_server",
    "dns_server 1.2.3.4:port", "dns_query_restriction block x", "dns_query_restriction deny", "dns_query_restriction", "dns_test_interval zz", "dns_test_interval", "dns_available", "dns_options", "dns_options garbage, more",
    "loadplugin", "loadplugin nothing", "loadplugin no.such.Module", "loadplugin oa.plugins.pyzor.Missing", "loadplugin oa.message.Message", "loadplugin oa.plugins.pyzor.pyzor", "loadplugin Foo /no/such/file.py", "loadplugin Foo ../nope.py",
    "loadplugin Mail::SpamAssassin::Plugin::NoSuch", "loadplugin .", "loadplugin ..", "loadplugin os.path", "loadplugin os.getcwd", "ifplugin\nendif", "ifplugin No.Such::Plugin\nbody {b} /./\nendif", "endif", "else", "endif # x", "else\nendif",
    "include", "include nothere.cf", "include .", "include ..", "include \x00", "lang xx describe G_ONE wrong language", "lang xx report wrong language", "lang xx score G_ONE 50",
    "unknown_setting 1", "unknown", "body: G_ONE /x/", "bodys G_ONE /x/", "scores G_ONE 100", "describe_rule G_ONE x", "metas G_ONE 1", "reports something", "report_safely 0", "clear_nothing", "required_scores 0", "require_version 99", "require_version",
    "\xff\xfe\x00\x01", "\x00", "=", "[section]", "{{", "}}", "%s %d %(x)s", "%", "\\", "\\#", "if (version > 3)", "version_tag x", "#", "   # comment", "\xa0", "\xc3\xa9\xc3\xa9 x", "'", '"', "<xml/>",
    "required_score", "report_safe", "replace_tag", "replace_tag X", "replace_rules NO_SUCH_RULE", "replace_rules", "replace_pre", "replace_inter a", "replace_post", "shortcircuit", "shortcircuit NO_SUCH_RULE spam", "shortcircuit G_ONE bogus",
    "shortcircuit G_ONE", "freemail_max_body_emails", "whitelist_from_rcvd a", "def_whitelist_from_rcvd", "enlist_addrlist", "enlist_addrlist (", "enlist_uri_host", "delist_uri_host (X)", "whitelist_from",
    "blacklist_to", "whitelist_uri_host", "adsp_override", "adsp_override example.com bogus", "use_newest_received_spf_header", "whitelist_from_spf", "spf_timeout -5", "spf_timeout 5x", "spf_timeout", "whitelist_from_dkim",
]
PLUGINS = ["header_eval.HeaderEval", "replace_tags.ReplaceTags", "short_circuit.ShortCircuit", "uri_detail.URIDetailPlugin", "free_mail.FreeMail", "wlbl_eval.WLBLEvalPlugin", "spf.SpfPlugin", "dkim.DKIMPlugin",
           "auto_learn_threshold.AutoLearnThreshold", "body_eval.BodyEval", "mime_eval.MIMEEval", "relay_eval.RelayEval", "uri_eval.URIEvalPlugin"]
GOOD = ["G_ONE", "G_TWO", "G_THREE", "G_FOUR"]
FIXED = ["report Score _SCORE_ tests _TESTS_", "report _SUMMARY_", "add_header all Checked yes _YESNO_", "add_header spam Level _SCORE_", "remove_header ham Old", "trusted_networks 10.0.0.0/8", "internal_networks 192.168.1.0/24",
         "meta G_META (G_ONE && !G_TWO) || __SUB > 0", "score G_META 2.5", "body __SUB /tokecho/", "describe G_META both of them", "priority G_META 4", "header G_EV eval:check_for_missing_to_header()"]

good = st.tuples(st.sampled_from(gen.RULE_KINDS), st.sampled_from(gen.WORDS[:4]), st.sampled_from([None, 1.0, -2.0, 3.5]), st.booleans()).map(list)
bad = st.one_of(st.tuples(st.just("S"), st.sampled_from(S_LINES)), st.tuples(st.just("W"), st.sampled_from(W_LINES)), st.tuples(st.just("S"), st.sampled_from(S_LINES)),
                st.tuples(st.just("G"), st.text(st.characters(min_codepoint=0, max_codepoint=255, blacklist_characters="\n"), min_size=1, max_size=30))).map(list)
case_st = st.fixed_dictionaries(dict(good=st.lists(good, min_size=1, max_size=4), req=st.sampled_from([None, 2.0]), safe=st.sampled_from([0, 1, 2]), bad=st.lists(st.tuples(bad, st.integers(0, 40)).map(list), min_size=1, max_size=8),
                                     words=st.sets(st.sampled_from(gen.WORDS[:5]), min_size=1).map(sorted), plugins=st.booleans(), paranoid=st.booleans(), onlyw=st.booleans()))


def good_lines(case):
    lines = []
    for i, (kind, word, score, desc) in enumerate(case["good"]):
        lines.append(gen.rule_line(kind, GOOD[i], word))
        if score is not None:
            lines.append("score %s %s" % (GOOD[i], gen.fmt(score)))
        if desc:
            lines.append("describe %s about it" % GOOD[i])
    for i in range(len(case["good"]), 2):
        lines.append(gen.rule_line("body", GOOD[i], "tokhotel"))
    lines += FIXED
    lines.append("report_safe %d" % case["safe"])
    if case["req"]:
        lines.append("required_score %s" % gen.fmt(case["req"]))
    return lines


def head(case):
    return "".join("loadplugin oa.plugins.%s\n" % p for p in (PLUGINS if case["plugins"] else PLUGINS[:1]))


MSG_EXTRA = ["X-Spam-Old: value", "Received: from a.example.com (a.example.com [10.1.2.3]) by mx.example.org (Postfix) with ESMTP id ABCDEF for <r@example.org>; Mon, 1 Jan 2017 00:00:00 +0000",
             "Received: from b.example.com (b.example.com [8.7.6.5]) by a.example.com (Postfix) with ESMTP id ABCDE2 for <r@example.org>; Mon, 1 Jan 2017 00:00:00 +0000"]
PLUGIN_ONLY = ("uri_detail", "spf_timeout", "bayes_auto", "shortcircuit_spam")
WANT = ["evaluated", "report", "adjusted", "headers", "matched_report", "relays"]


def run(w, text, msg, paranoid=False):
    return w.call("core.scan", dict(files=[["a.cf", text]], msgs=[msg], want=WANT, paranoid=paranoid))


def body(case, w, note):
    lines = good_lines(case)
    msg = gen.probe_message(case["words"], extra_headers=MSG_EXTRA).replace("To: rcpt@example.org\n", "")
    bads, cls = [], set()
    for i, ((c, t), pos) in enumerate(case["bad"]):
        if case["onlyw"] and c == "S":
            c, t = "W", W_LINES[(pos + i) % len(W_LINES)]
        if c != "G":
            t = t.format(b="BAD_%d" % i)
        else:
            first = t.split(None, 1)[:1]
            if not first or first[0].rstrip("0123456789").isalpha():
                t = "@" + t
        if c == "S" and t.startswith(PLUGIN_ONLY) and not case["plugins"]:
            c = "W"
        cls.add(c)
        bads.append((pos, t))
    full = list(lines)
    for pos, t in bads:
        # never between a rule and a continuation: every line stands alone
        full.insert(pos % (len(full) + 1), t)
    clean = run(w, head(case) + "\n".join(lines) + "\n", msg)
    dirty = run(w, head(case) + "\n".join(full) + "\n", msg)
    check(clean["load_exc"] is None, "the clean configuration failed to load", exc=clean["load_exc"])
    check(dirty["load_exc"] is None, "bad lines made loading fail", bad=bads, exc=dirty["load_exc"], tb=dirty.get("tb"))
    check_eq(dirty["results"], clean["results"], "results with the bad lines", bad=bads)
    check("exc" not in clean["results"][0], "scanning raised", out=clean["results"][0])
    if case["paranoid"]:
        p = run(w, head(case) + "\n".join(full) + "\n", msg, True)
        if "S" in cls:
            check(p["load_exc"] is not None, "paranoid mode accepted an invalid configuration", bad=bads)
            check(p["load_exc_parsing"], "paranoid mode refused with something else than a parsing error", bad=bads, exc=p["load_exc"], tb=p.get("tb"))
        else:
            check(p["load_exc"] is None, "paranoid mode refused a valid configuration", bad=bads, exc=p["load_exc"])
            check_eq(p["results"], clean["results"], "paranoid results", bad=bads)
        note.event("paranoid " + ("refused" if "S" in cls else "accepted"))
    note.nontrivial(len(set(t for _, t in bads)) >= 2 and bool(clean["results"][0]["tests"]))
    note.event(*["class " + c for c in cls])


# ---- mutated rule lines
TEMPLATES = ["body BAD_1 /tokalpha/i", "header BAD_1 Subject =~ /plain/", "header BAD_1 exists:Subject", "mimeheader BAD_1 X-Probe:raw =~ /tok/", "meta BAD_1 (G_ONE + G_TWO) > 0 && !__SUB", "uri BAD_1 m{http://[a-z]+\\.example}x",
             "header BAD_1 eval:check_for_missing_to_header()", "full BAD_1 /(a|b)+(?i:c)\\bfrom/s", "score BAD_1 1 2 3 4", "tflags BAD_1 net nice", "priority BAD_1 -5", "describe BAD_1 some text here", "rawbody BAD_1 m#x\\#y#",
             "header BAD_1 From:addr !~ /@example\\.com$/", "header BAD_1 ALL =~ /^To:/m", "uri_detail BAD_1 raw =~ /x/ domain !~ /y/"]
edit = st.tuples(st.sampled_from(["del", "dup", "ins", "swap", "cut"]), st.integers(5, 80), st.sampled_from(list("()[]{}/\\|*+?^$!=~:, #%&<>'\"-.") + ["\xff", "\x00", "(?", "(?P<", "\\x", "\\N{", "{9}", "eval:", "=~", "!~"])).map(list)
mut_st = st.fixed_dictionaries(dict(good=st.lists(good, min_size=1, max_size=4), req=st.none(), safe=st.just(1), words=st.sets(st.sampled_from(gen.WORDS[:5]), min_size=1).map(sorted), plugins=st.booleans(),
                                    muts=st.lists(st.tuples(st.sampled_from(TEMPLATES), st.lists(edit, min_size=1, max_size=4), st.integers(0, 40)).map(list), min_size=1, max_size=5)))


def mutate(t, edits):
    keep = len(t.split()[0]) + 1
    for op, pos, ins in edits:
        p = keep + pos % max(1, len(t) - keep)
        if op == "del":
            t = t[:p] + t[p + 1:]
        elif op == "dup":
            t = t[:p] + t[p:p + 3] + t[p:]
        elif op == "ins":
            t = t[:p] + ins + t[p:]
        elif op == "swap":
            t = t[:p] + t[p + 1:p + 2] + t[p:p + 1] + t[p + 2:]
        else:
            t = t[:p]
    return t


def mut_body(case, w, note):
    lines = good_lines(case)
    msg = gen.probe_message(case["words"], extra_headers=MSG_EXTRA)
    full, muts = list(lines), []
    for t, edits, pos in case["muts"]:
        m = mutate(t, edits)
        if any(g in m.split()[1:2] for g in GOOD) or "G_M" in " ".join(m.split()[1:2]):
            continue
        # interpreter bug (catastrophic or endless matching) is out of scope: repeats of repeats are skipped
        if any(q + r in m for q in "*+?}" for r in "*+?{") or ")+" in m or ")*" in m or "){" in m:
            m = m.split()[0] + " BAD_1"
        muts.append(m)
        full.insert(pos % (len(full) + 1), m)
    clean = run(w, head(case) + "\n".join(lines) + "\n", msg)
    dirty = run(w, head(case) + "\n".join(full) + "\n", msg)
    check(clean["load_exc"] is None, "the clean configuration failed to load", exc=clean["load_exc"])
    check(dirty["load_exc"] is None, "mutated lines made loading fail", muts=muts, exc=dirty["load_exc"], tb=dirty.get("tb"))
    a, b = clean["results"][0], dirty["results"][0]
    check("exc" not in b, "scanning raised", muts=muts, out=b)
    check_eq([t for t in b["tests"] if t.startswith("G_")], a["tests"], "matched well-formed rules", muts=muts)
    check_eq([t for t in b["evaluated"] if t.startswith("G_")], a["evaluated"], "evaluated well-formed rules", muts=muts)
    rep = lambda o: [l for l in o["matched_report"].replace("\r", "").split("\n") if " G_" in l]
    check_eq(rep(b), rep(a), "report of the well-formed rules", muts=muts)
    p = run(w, head(case) + "\n".join(full) + "\n", msg, True)
    if p["load_exc"] is None:
        check_eq(p["results"], dirty["results"], "an accepted configuration gives the default mode's result", muts=muts)
    else:
        check(p["load_exc_parsing"], "paranoid mode refused with something else than a parsing error", muts=muts, exc=p["load_exc"], tb=p.get("tb"))
    note.nontrivial(len(muts) >= 2 and bool(a["tests"]))
    note.event("paranoid refused" if p["load_exc"] else "paranoid accepted")


FACETS = [Facet("lines", case_st, body, quick=1500), Facet("mutated", mut_st, mut_body, quick=1000)]
