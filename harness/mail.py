"""Generator of realistic whole messages (well formed), as JSON-able descriptions plus a renderer."""
from hypothesis import strategies as st
from . import mime, gen

ADDRS = ["sender@example.com", "rcpt@example.org", "Other.User@mail.example.net", "x+tag@example.co.uk", "free@gmail.com", "a_b@sub.example.com", "root@localhost"]
NAMES_ = ["", "John Doe", '"Doe, John"', "=?utf-8?q?J=C3=B6rg?=", "=?iso-8859-1?b?U2Now7Zu?=", "tokalpha"]
addr = st.tuples(st.sampled_from(NAMES_), st.sampled_from(ADDRS)).map(lambda t: "%s <%s>" % t if t[0] else t[1])
addrs = st.lists(addr, min_size=1, max_size=3).map(", ".join)
SUBJECTS = ["plain subject", "tokalpha tokbravo", "=?utf-8?b?%s?=" % "dG9rYWxwaGEgw6kgc3ViamVjdA==", "=?iso-8859-1?q?caf=E9_tokcharlie?=", "", "RE: [list] 100% free", "folded\n subject tokdelta", "FREE MONEY NOW"]
DATES = ["Fri, 14 Jul 2017 02:40:00 +0000", "Mon, 1 Jan 2007 00:00:00 -0800", "14 Jul 2017 04:40:00 +0200"]
RECEIVED = [
    "from a.example.com (a.example.com [10.1.2.3]) by mx.example.org (Postfix) with ESMTP id ABCDEF for <r@example.org>; Fri, 14 Jul 2017 02:00:00 +0000",
    "from b.example.com (b.example.com [8.7.6.5]) by a.example.com (Postfix) with ESMTP id ABCDE2 for <r@example.org>; Fri, 14 Jul 2017 01:50:00 +0000",
    "from helo.example.net (unknown [93.184.216.34])\n\tby b.example.com (8.14.4/8.14.4) with ESMTP id v6E2e\n\tfor <r@example.org>; Fri, 14 Jul 2017 01:40:00 +0000",
    "from [192.168.7.7] (HELO friend) (user@1.2.3.4 with login) by smtp.example.com with SMTP; 14 Jul 2017 01:30:00 -0000",
    "from mail.example.com (mail.example.com [IPv6:2001:db8::25]) by mx2.example.org (Postfix) with ESMTPSA id XX1; Fri, 14 Jul 2017 01:00:00 +0000",
    "by 10.229.20.15 with HTTP; Thu, 13 Jul 2017 19:22:50 -0700 (PDT)",
    "(qmail 2345 invoked by uid 500); 13 Jul 2017 19:22:50 -0000",
    "from local by host with local (Exim 4.80) (envelope-from <x@example.com>) id 1abcde-0001-AA; Thu, 13 Jul 2017 19:22:50 +0000",
]
header = st.one_of(
    st.tuples(st.just("From"), addrs), st.tuples(st.sampled_from(["To", "Cc", "Reply-To", "Resent-To", "Resent-From", "Sender", "Delivered-To", "Bcc"]), addrs),
    st.tuples(st.just("Subject"), st.sampled_from(SUBJECTS)), st.tuples(st.just("Date"), st.sampled_from(DATES)),
    st.tuples(st.sampled_from(["Message-ID", "Message-Id", "In-Reply-To", "References", "Resent-Message-ID"]), st.sampled_from(["<1.2@example.com>", "<abc$def@x>", "<tokalpha@example.net> <tokbravo@example.net>"])),
    st.tuples(st.sampled_from(["Return-Path", "X-Envelope-From", "Envelope-Sender", "X-Sender"]), st.sampled_from(["<bounce@example.com>", "bounce@example.net", "<>"])),
    st.tuples(st.sampled_from(["X-Probe", "x-probe", "X-Mailer", "X-Spam-Status", "X-Spam-Old", "X-Has-tokalpha", "List-Id", "X-Originating-IP", "Precedence"]),
              st.sampled_from(["tokalpha", "tokbravo and more", "=?utf-8?q?tokcharlie?=", "[1.2.3.4]", "1.2.3.4", "a\n folded\tvalue", "100% _TESTS_", "bulk", "Yes"])),
    st.tuples(st.just("Received"), st.sampled_from(RECEIVED)), st.tuples(st.just("Received"), st.sampled_from(RECEIVED)),
    st.tuples(st.just("Received-SPF"), st.sampled_from(["pass (mx: ok) identity=mailfrom", "fail (x) identity=helo;", "softfail"])),
).map(list)
LINES = ["some text here", "body tokalpha line", "tokbravo", "see http://tokalpha.example.net/x now", "visit www.example.org/path?q=1", "", "  indented text", "Contact free@gmail.com or friend@example.com", "ALL CAPS LINE", "caf\u00e9 na\u00efve \u20ac", "From the start", "=20 percent 100%", "-- ", "dear friend"]
HTML = ["<p>some text here</p>", "<b>tok</b>alpha", "<a href=\"http://tokbravo.example.net/y\">click here</a>", "<a href='https://www.example.org/'>www.example.com</a>", "<img src=\"http://img.example.com/a.gif\">", "<br>", "tokcharlie &amp; &eacute; &#8364;", "<!-- tokdelta -->",
        "<style>p { color: red }</style>", "<font color=\"white\">hidden</font>", "<table><tr><td>cell</td></tr></table>", "<form action=\"http://form.example.com/\"></form>"]
cte = st.sampled_from([None, "7bit", "8bit", "quoted-printable", "base64"])
charset = st.sampled_from(["utf-8", "utf-8", "iso-8859-15", "windows-1252"])
text_part = st.fixed_dictionaries(dict(k=st.just("text"), sub=st.just("plain"), lines=st.lists(st.sampled_from(LINES), min_size=1, max_size=6), cte=cte, charset=charset, declare=st.booleans(), name=st.sampled_from([None, None, None, "notes.txt"])))
html_part = st.fixed_dictionaries(dict(k=st.just("text"), sub=st.just("html"), lines=st.lists(st.sampled_from(HTML), min_size=1, max_size=6), cte=cte, charset=charset, declare=st.booleans(), name=st.none()))
bin_part = st.fixed_dictionaries(dict(k=st.just("bin"), ctype=st.sampled_from(["image/gif", "image/png", "image/jpeg", "application/pdf", "application/octet-stream"]), name=st.sampled_from(["a.gif", "b.png", "doc.pdf", "x.bin"]), seed=st.integers(0, 5)))
leaf = st.one_of(text_part, text_part, html_part, html_part, bin_part)
tree = st.recursive(leaf, lambda s: st.one_of(
    st.fixed_dictionaries(dict(k=st.just("multi"), sub=st.sampled_from(["mixed", "alternative", "related"]), parts=st.lists(s, min_size=1, max_size=3), preamble=st.sampled_from(["", "preamble tokalpha"]))),
    st.fixed_dictionaries(dict(k=st.just("rfc822"), part=s, headers=st.lists(header, max_size=2)))), max_leaves=5)
mail = st.fixed_dictionaries(dict(headers=st.lists(header, min_size=1, max_size=9), tree=tree))

BLOB = [b"GIF89a\x10\x00\x20\x00\x80\x00\x00", b"\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR\x00\x00\x00\x40\x00\x00\x00\x30\x08\x02", b"%PDF-1.4\n1 0 obj\n<< /Type /Catalog >>\nendobj\ntrailer\n<< /Root 1 0 R >>\n%%EOF\n",
        b"\xff\xd8\xff\xe0\x00\x10JFIF\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00\xff\xc0\x00\x11\x08\x00\x30\x00\x40\x03", b"", b"\x00\x01\x02binary"]


def node(t):
    if t["k"] == "text":
        text = "\n".join(t["lines"]) + "\n"
        cs = t["charset"]
        headers = []
        if t["cte"] in (None, "7bit", "8bit"):
            # a unicode message source carries unencoded parts as they are
            cs = "utf-8"
        if t["cte"]:
            headers.append(["Content-Transfer-Encoding", t["cte"]])
        ctype = "text/" + t["sub"]
        if t["declare"] or any(ord(c) > 127 for c in text):
            ctype += '; charset="%s"' % cs
        if t["name"]:
            headers.append(["Content-Disposition", 'attachment; filename="%s"' % t["name"]])
        return dict(ctype=ctype, headers=headers, body=mime.encode_body(text, cs, t["cte"]))
    if t["k"] == "bin":
        return dict(ctype='%s; name="%s"' % (t["ctype"], t["name"]), headers=[["Content-Transfer-Encoding", "base64"], ["Content-Disposition", 'attachment; filename="%s"' % t["name"]], ["X-Probe", "tokecho"]],
                    body=mime.b64(BLOB[t["seed"]] * 2) + "\n")
    if t["k"] == "rfc822":
        return dict(ctype="message/rfc822", children=[node(t["part"])], inner_headers=[h for h in t["headers"]])
    return dict(ctype="multipart/" + t["sub"], children=[node(p) for p in t["parts"]], preamble=t["preamble"])


def render(m):
    return mime.render(node(m["tree"]), (0,), m["headers"])


# A configuration that looks at everything; plugins that need no network.
PLUGINS = ["header_eval.HeaderEval", "replace_tags.ReplaceTags", "uri_detail.URIDetailPlugin", "free_mail.FreeMail", "wlbl_eval.WLBLEvalPlugin", "spf.SpfPlugin", "relay_eval.RelayEval", "body_eval.BodyEval", "mime_eval.MIMEEval",
           "uri_eval.URIEvalPlugin", "image_info.ImageInfoPlugin", "pdf_info.PDFInfoPlugin", "whitelist_subject.WhiteListSubjectPlugin", "textcat.TextCatPlugin", "dkim.DKIMPlugin", "short_circuit.ShortCircuit", "auto_learn_threshold.AutoLearnThreshold"]
RULES = ["body B_%s /%s/" % (w.upper(), w) for w in gen.WORDS[:4]] + [
    "rawbody RB_HREF /<a href/i", "rawbody RB_TOK /tok(?:alpha|bravo)/", "full F_X /X-Probe/i", "uri U_NET /example\\.net/", "uri U_HTTPS /^https:/", "header H_SUBJ Subject =~ /tok/", "header H_FROM From:addr =~ /example\\.com$/", "header H_NAME From:name =~ /John/",
    "header H_PROBE X-Probe =~ /^tok/", "header H_NPROBE X-Probe !~ /alpha/", "header H_RAW Subject:raw =~ /=\\?/", "header H_EX exists:X-Mailer", "header H_ALL ALL =~ /X-Spam/", "header H_TOCC ToCc =~ /example\\.org/", "header H_MID MESSAGEID =~ /example/",
    "mimeheader MH_CT Content-Type =~ /image/", "mimeheader MH_P X-Probe =~ /tokecho/", "header H_RCV Received =~ /Postfix/", "header H_REL X-Spam-Relays-Untrusted =~ /ip=/", "meta M_1 (B_TOKALPHA + U_NET) > 1", "meta M_2 H_EX || !H_SUBJ"]
EVALS = ["header E_MISSTO eval:check_for_missing_to_header()", "header E_ALLTR eval:check_all_trusted()", "header E_NOREL eval:check_no_relays()", "header E_UNP eval:check_relays_unparseable()", "header E_NREV eval:check_for_sender_no_reverse()",
         "header E_ILLIP eval:check_for_illegal_ip()", "header E_TRAIL eval:check_for_forged_received_trail()", "header E_HELO eval:check_for_numeric_helo()", "header E_FIP eval:check_for_forged_received_ip_helo()", "header E_DOM eval:check_for_from_domain_in_received_headers('example.com','true')",
         "body E_BLANK eval:check_blank_line_ratio('0','50','1')", "body E_VERT eval:tvd_vertical_words('0','90')", "body E_STOCK eval:check_stock_info('1')", "body E_DIFF eval:multipart_alternative_difference('0','100')",
         "header E_ILL eval:check_illegal_chars('Subject','0.00','2')", "header E_ALLCAPS eval:subject_is_all_caps()", "header E_CNT eval:check_header_count_range('Received','1','3')", "header E_SHIFT eval:check_for_shifted_date('3','6')", "header E_UNR eval:check_unresolved_template()",
         "header E_FAKE eval:check_for_faraway_charset_in_headers()", "body E_MIMEB eval:check_for_mime('mime_base64_count')", "body E_HTMLO eval:check_for_mime_html_only()", "body E_FAR eval:check_for_faraway_charset()", "body E_QPR eval:check_qp_ratio('0.1')", "body E_MRATIO eval:check_mime_multipart_ratio('0.1','2')",
         "body E_B64L eval:check_base64_length('10','80')", "body E_HTTPS eval:check_https_ip_mismatch()", "uri E_TRUNC eval:check_for_http_redirector()", "body E_IMGC eval:image_count('all','1','3')", "body E_IMGN eval:image_named('a.gif')", "body E_IMGP eval:pixel_coverage('all','1','90000')", "body E_IMGT eval:image_to_text_ratio('all','0.0','0.9')",
         "body E_PDFC eval:pdf_count('1','5')", "body E_PDFN eval:pdf_named('doc.pdf')", "header E_FMF eval:check_freemail_from()", "body E_FMB eval:check_freemail_body()", "header E_FMR eval:check_freemail_replyto('reply')", "header E_FMH eval:check_freemail_header('From')",
         "header E_WL eval:check_from_in_whitelist()", "header E_BL eval:check_from_in_blacklist()", "header E_WT eval:check_to_in_whitelist()", "header E_FORG eval:check_forged_in_whitelist()", "header E_MFR eval:check_mailfrom_matches_rcvd()", "body E_UHB eval:check_uri_host_in_blacklist()", "body E_UHL eval:check_uri_host_listed('MY')",
         "header E_SPF eval:check_for_spf_pass()", "header E_SPFF eval:check_for_spf_fail()", "header E_SPFW eval:check_for_spf_whitelist_from()", "header E_SWL eval:check_subject_in_whitelist()", "body E_LANG eval:check_language()", "full E_DKIM eval:check_dkim_valid()", "full E_DKIMS eval:check_dkim_signed()",
         "body E_ALTC eval:multipart_alternative_difference_count('3','1')", "header E_ADSP eval:check_dkim_adsp('*')", "header E_DKIMA eval:check_dkim_valid_author_sig()", "header E_DKIMD eval:check_dkim_dependable()", "header E_DKIMW eval:check_for_dkim_whitelist_from()", "header E_DKIMDW eval:check_for_def_dkim_whitelist_from()",
         "header E_AOL eval:check_for_fake_aol_relay_in_rcvd()", "header E_UNIQ eval:check_for_unique_subject_id()", "header E_HOTM eval:check_for_forged_hotmail_received_headers()", "header E_NHOTM eval:check_for_no_hotmail_received_headers()", "header E_MSN eval:check_for_msn_groups_headers()", "header E_EUD eval:check_for_forged_eudoramail_received_headers()",
         "header E_YAHOO eval:check_for_forged_yahoo_received_headers()", "header E_JUNO eval:check_for_forged_juno_received_headers()", "header E_ENVHDR eval:check_for_matching_env_and_hdr_from()", "header E_SORTR eval:sorted_recipients()", "header E_SIMR eval:similar_recipients('0.4','undef')", "header E_GW05 eval:check_for_forged_gw05_received_headers()",
         "header E_TOSUB eval:check_for_to_in_subject('user')", "header E_OUTL eval:check_outlook_message_id()", "header E_MIDNU eval:check_messageid_not_usable()", "header E_RATN eval:check_ratware_name_id()", "header E_RATE eval:check_ratware_envelope_from()", "header E_GATED eval:gated_through_received_hdr_remover()", "header E_EQD eval:check_equal_from_domains()",
         "header E_MONTHS eval:received_within_months('undef','3')", "header E_MONTHS2 eval:received_within_months('3','6')", "header E_ILLALL eval:check_illegal_chars('ALL','0.02','1')", "header E_ILLFROM eval:check_illegal_chars('From','0.20','2')", "body E_IMGX eval:image_size_exact('all','32','16')", "body E_IMGR eval:image_size_range('gif','1','1','99','99')",
         "body E_HTMLP eval:check_for_mime_html()", "header E_PF1 eval:check_msg_parse_flags('missing_mime_head_body_separator')", "header E_PF2 eval:check_msg_parse_flags('missing_mime_headers')", "header E_PF3 eval:check_msg_parse_flags('truncated_headers')", "header E_PF4 eval:check_msg_parse_flags('mime_epilogue_exists')", "body E_ASCII eval:check_for_ascii_text_illegal()",
         "body E_UNIR eval:check_abundant_unicode_ratio('0.02')", "body E_UPPER eval:check_for_uppercase('10','100')", "body E_MANT eval:check_ma_non_text()", "body E_PDFI eval:pdf_image_count('1')", "body E_PDFX eval:pdf_pixel_coverage('0','10')", "body E_PDFNR eval:pdf_name_regex('/doc/')", "body E_PDFM eval:pdf_match_md5('d41d8cd98f00b204e9800998ecf8427e')",
         "body E_PDFD eval:pdf_match_details('author','/a/')", "body E_PDFE eval:pdf_is_encrypted()", "body E_PDFB eval:pdf_is_empty_body('100')", "header E_HIM eval:helo_ip_mismatch()", "header E_DOTCOM eval:check_for_no_rdns_dotcom_helo()", "header E_SPFNE eval:check_for_spf_neutral()", "header E_SPFNO eval:check_for_spf_none()",
         "header E_SPFSO eval:check_for_spf_softfail()", "header E_SPFPE eval:check_for_spf_permerror()", "header E_SPFTE eval:check_for_spf_temperror()", "header E_SPFHP eval:check_for_spf_helo_pass()", "header E_SPFHF eval:check_for_spf_helo_fail()", "header E_SPFHN eval:check_for_spf_helo_none()", "header E_SPFDW eval:check_for_def_spf_whitelist_from()",
         "uri E_UTR eval:check_uri_truncated()", "header E_SBL eval:check_subject_in_blacklist()", "header E_BT eval:check_to_in_blacklist()", "header E_INL eval:check_from_in_list('whitelist_from')", "header E_TOL eval:check_to_in_list('whitelist_to')", "header E_ALLS eval:check_to_in_all_spam()", "header E_MORES eval:check_to_in_more_spam()",
         "header E_DEFW eval:check_from_in_default_whitelist()", "header E_FDEFW eval:check_forged_in_default_whitelist()", "body E_UHW eval:check_uri_host_in_whitelist()", "header E_MM1 eval:check_for_mime('mime_qp_long_line')", "body E_MM2 eval:check_for_mime('mime_base64_encoded_text')", "body E_FMB2 eval:check_freemail_body('/free/')", "header E_FMR2 eval:check_freemail_replyto('replyto')",
         "uri_detail E_UD domain =~ /example/ text =~ /click/", "body E_TAG /<TG>/"]
OPTIONS = ["whitelist_from *@example.com", "blacklist_from *@example.net", "whitelist_to rcpt@example.org", "whitelist_from_rcvd *@example.com b.example.com", "blacklist_uri_host example.org", "enlist_uri_host (MY) example.net", "freemail_domains gmail.com example.co.uk", "replace_tag TG tok[ab]", "replace_rules E_TAG",
           "trusted_networks 10.0.0.0/8 8.7.6.5", "whitelist_from_spf *@example.com", "ok_languages en", "ok_locales en", "originating_ip_headers X-Originating-IP",
           "freemail_max_body_emails 2", "freemail_max_body_freemails 1", "freemail_skip_bulk_envfrom 0", "freemail_whitelist free@gmail.com", "freemail_add_describe_email 1", "whitelist_from_dkim *@example.com", "blacklist_to *@example.org", "blacklist_from sender@*", "all_spam_to rcpt@*", "whitelist_uri_host example.net", "whitelist_subject plain", "ignore_received_spf_header 1",
           "internal_networks 10.1.0.0/16", "msa_networks 10.1.2.3", "always_trust_envelope_sender 1", "envelope_sender_header X-Sender", "use_bayes 0", "shortcircuit B_TOKALPHA on", "shortcircuit H_PROBE spam", "shortcircuit M_2 ham", "priority E_ILLALL 10", "priority H_ALL -5"]
REPORT = ["report Score _SCORE_ of _REQD_: _TESTS_", "report _SUMMARY_", "report _PREVIEW_ _RELAYSTRUSTED_ _RELAYSUNTRUSTED_", "add_header all Status _YESNO_, score=_SCORE_ tests=_TESTS_", "add_header spam Flag YES", "remove_header all Old"]


def config(evals, options, plugins=None, extra=()):
    """Full configuration text; evals/options are lists of indices."""
    return "".join("loadplugin oa.plugins.%s\n" % p for p in (PLUGINS if plugins is None else plugins)) + "\n".join(
        RULES + [EVALS[i] for i in evals] + [OPTIONS[i] for i in options] + REPORT + list(extra)) + "\n"


evals = st.lists(st.integers(0, len(EVALS) - 1), max_size=12, unique=True)
options = st.lists(st.integers(0, len(OPTIONS) - 1), max_size=8, unique=True)
# nearly every rule and most options, for properties about state
many = st.lists(st.integers(0, len(EVALS) - 1), max_size=12, unique=True).map(lambda out: [i for i in range(len(EVALS)) if i not in out])
many_options = st.lists(st.integers(0, len(OPTIONS) - 1), max_size=22, unique=True)
