"""C05: a configuration depends only on its own files."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import gen

PROPERTY = "C05"
RULE = ("cases are histories of 3-8 steps (load one of 2-3 generated configurations into a slot, scan messages with a live slot, drop a slot) in one process; every load and scan is compared with the same load and scan alone in a fresh process; "
        "non-trivial = a scan of a slot after another configuration with plugins was loaded or used, and some rule matched")
ASSUMPTIONS = ["plugins whose documented purpose is to keep state outside the process (bayes, awl) are left out"]
PLUG = ["header_eval.HeaderEval", "replace_tags.ReplaceTags", "short_circuit.ShortCircuit", "uri_detail.URIDetailPlugin", "free_mail.FreeMail", "wlbl_eval.WLBLEvalPlugin", "spf.SpfPlugin", "dkim.DKIMPlugin", "relay_eval.RelayEval",
        "body_eval.BodyEval", "mime_eval.MIMEEval", "uri_eval.URIEvalPlugin", "image_info.ImageInfoPlugin", "pdf_info.PDFInfoPlugin", "textcat.TextCatPlugin", "auto_learn_threshold.AutoLearnThreshold", "whitelist_subject.WhiteListSubjectPlugin", "whitelist_subject.WhiteListSubjectPlugin"]
LINES = ["trusted_networks 10.0.0.0/8", "trusted_networks 8.7.6.5", "internal_networks 10.1.0.0/16", "internal_networks !10.1.2.3 10/8", "msa_networks 10.1.2.3", "clear_trusted_networks", "clear_internal_networks", "required_score 2", "required_score 0.5",
         "report Hello _SCORE_ _TESTS_", "report second _SUMMARY_ _YESNO_", "clear_report_template", "unsafe_report careful", "report_contact someone", "report_safe 0", "report_safe 2", "add_header all Foo bar _TESTS_", "add_header spam Bar x", "remove_header all Old", "clear_headers",
         "use_network 0", "use_bayes 0", "user_config 0", "autolearn 1", "always_trust_envelope_sender 1", "envelope_sender_header X-Sender", "originating_ip_headers X-Orig", "ok_locales en", "dns_query_restriction deny com", "dns_available no",
         "whitelist_from *@example.com", "whitelist_from sender@example.com", "blacklist_from *@example.com", "whitelist_to rcpt@example.org", "whitelist_from_rcvd *@example.com b.example.com", "all_spam_to rcpt@*", "blacklist_uri_host example.net", "enlist_uri_host (MY) tokalpha.example.net", "delist_uri_host example.net",
         "freemail_domains example.com example.org", "freemail_whitelist sender@example.com", "freemail_max_body_emails 1", "util_rb_2tld example.net", "replace_tag X tok(alpha|bravo)", "replace_rules R_TAG", "replace_start [", "replace_end ]", "shortcircuit R_ONE spam", "shortcircuit R_TWO ham",
         "shortcircuit_spam_score 50", "shortcircuit R_TWO on", "whitelist_from_spf *@example.com", "ignore_received_spf_header 1", "ok_languages en", "bayes_auto_learn_threshold_spam 1",
         "score R_ONE 3", "score R_TWO 0", "score R_EVAL 4", "describe R_ONE words", "priority R_TWO 10", "tflags R_ONE nice", "tflags R_TWO net", "tflags R_EVAL userconf", "uri_detail R_UD domain =~ /example/", "lang en report english", "whitelist_subject the", "whitelist_subject nothing\nheader R_WS eval:check_subject_in_whitelist()", "header R_WS eval:check_subject_in_whitelist()", "blacklist_subject t.e\nheader R_BS eval:check_subject_in_blacklist()", "describe R_EVAL %s _TESTS_",
         "ifplugin Mail::SpamAssassin::Plugin::ReplaceTags\nbody R_IF /text/\nelse\nbody R_ELSE /text/\nendif", "body R_TAG /<X>/", "body R_TAG /[X]/", "header R_WL eval:check_from_in_whitelist()", "header R_BL eval:check_from_in_blacklist()", "header R_TO eval:check_to_in_whitelist()",
         "header R_WL2 eval:check_forged_in_whitelist()", "header R_ALLSPAM eval:check_to_in_all_spam()", "body R_UH eval:check_uri_host_listed('MY')", "body R_UB eval:check_uri_host_in_blacklist()", "header R_FM eval:check_freemail_from()", "body R_FB eval:check_freemail_body()", "header R_FH eval:check_freemail_header('From')",
         "header R_EVAL eval:check_for_missing_to_header()", "header R_TR eval:check_all_trusted()", "header R_NOREL eval:check_no_relays()", "header R_SPF eval:check_for_spf_pass()", "header R_SPFW eval:check_for_spf_whitelist_from()", "body R_BLANK eval:check_blank_line_ratio('0','90','1')", "header R_LANG eval:check_language()",
         "meta R_META R_ONE && !R_TWO", "meta R_SUM R_ONE + R_TWO > 1", "meta R_UNK R_ONE && R_IF", "body R_BAD /(/", "loadplugin Nope", "unknown thing"]
rule = st.tuples(st.sampled_from(gen.RULE_KINDS), st.sampled_from(["R_ONE", "R_TWO", "R_THREE", "__S"]), st.sampled_from(gen.WORDS[:3])).map(lambda t: gen.rule_line(*t))
conf = st.fixed_dictionaries(dict(plugins=st.lists(st.sampled_from(PLUG), max_size=6, unique=True), rules=st.lists(rule, min_size=1, max_size=3), lines=st.lists(st.sampled_from(LINES), max_size=14), paranoid=st.sampled_from([False, False, False, True])))
step = st.one_of(st.tuples(st.just("load"), st.integers(0, 1), st.integers(0, 2)), st.tuples(st.just("scan"), st.integers(0, 1), st.sets(st.sampled_from(gen.WORDS[:3])).map(sorted)), st.tuples(st.just("scan"), st.integers(0, 1), st.sets(st.sampled_from(gen.WORDS[:3])).map(sorted)),
                 st.tuples(st.just("drop"), st.integers(0, 1))).map(list)
case_st = st.fixed_dictionaries(dict(confs=st.lists(conf, min_size=2, max_size=3), steps=st.lists(step, min_size=2, max_size=6), last=st.sets(st.sampled_from(gen.WORDS[:3]), min_size=1).map(sorted)))
EXTRA = ["X-Spam-Old: yes", "X-Orig: 1.2.3.4", "X-Sender: other@example.org", "Received-SPF: pass (x: y) identity=mailfrom", "Cc: third@example.org",
         "Received: from a.example.com (a.example.com [10.1.2.3]) by mx.example.org (Postfix) with ESMTP id ABCDEF for <r@example.org>; Mon, 1 Jan 2017 00:00:00 +0000",
         "Received: from b.example.com (b.example.com [8.7.6.5]) by a.example.com (Postfix) with ESMTP id ABCDE2 for <r@example.org>; Mon, 1 Jan 2017 00:00:00 +0000"]
WANT = ["evaluated", "report", "unsafe", "adjusted", "matched_report", "relays", "from_to", "tags"]


def text(c):
    return "".join("loadplugin oa.plugins.%s\n" % p for p in c["plugins"]) + "".join(r + "\n" for r in c["rules"]) + "".join(l + "\n" for l in c["lines"])


def body(case, w, note):
    confs = case["confs"]
    steps, cur, alive = [], {}, []
    # the history starts with both slots loaded and ends with a scan of both
    plan = [["load", 0, 0], ["load", 1, 1]] + case["steps"] + [["scan", 0, case["last"]], ["scan", 1, case["last"]]]
    for s in plan:
        if s[0] == "load":
            c = confs[s[2] % len(confs)]
            cur[s[1]] = c
            steps.append(["load", s[1], [["a.cf", text(c)]], c["paranoid"]])
        elif s[0] == "scan":
            steps.append(["scan", s[1], [gen.probe_message(s[2], "the subject", EXTRA)]])
        else:
            cur[s[1]] = None
            steps.append(s)
        alive.append(dict(cur))
    got = w.call("conf.history", dict(steps=steps, want=WANT))
    ref = {}
    interesting = False
    for i, s in enumerate(steps):
        if s[0] == "drop":
            continue
        c = alive[i][s[1]]
        if c is None:
            continue
        k = text(c) + str(c["paranoid"])
        if s[0] == "load":
            if k not in ref:
                ref[k] = w.call("conf.history", dict(steps=[s], want=WANT))[0]
            check_eq(got[i], ref[k], "loading the configuration at step %d" % i, steps=[x[:2] for x in steps], conf=text(c))
        else:
            alone = w.call("conf.history", dict(steps=[["load", 0, [["a.cf", text(c)]], c["paranoid"]], ["scan", 0, s[2]]], want=WANT))[1]
            if (i >= 2) and any(o and o is not c and o["plugins"] for o in alive[i].values()) and alone and alone[0].get("tests"):
                interesting = True
            a, b = got[i], alone
            if a != b and a and b:
                for key in sorted(set(a[0]) | set(b[0])):
                    check_eq(a[0].get(key), b[0].get(key), "%s of the scan at step %d" % (key, i), steps=[x[:2] for x in steps], conf=text(c))
            check_eq(a, b, "scan at step %d" % i, steps=[x[:2] for x in steps], conf=text(c))
    # a second scan of the same slot sees the same ruleset; M03 covers leaks between messages
    note.nontrivial(interesting)


FACETS = [Facet("history", case_st, body, quick=700)]
