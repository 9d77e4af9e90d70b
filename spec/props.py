# -*- coding: utf-8 -*-
"""Single source of the property list; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""

PROPS = []


def P(id, title, statement, over, text, why, files, mech, state=None,
      observe=None, module=None, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      text=text, why=why, files=files, mech=mech, state=state,
                      observe=observe, module=module, note=note))


# --------------------------------------------------------------------- engine
P("S01", "Verdict: score is the sum of matched scored rules against required_score",
  "For every ruleset and message, matching evaluates each enabled rule once and the message score equals the sum of the effective scores of exactly the rules that matched. "
  "Rules named with a leading `__` and rules whose effective score is 0 are never evaluated on their own, never contribute and never show up in reports, while remaining usable inside meta rules. "
  "The message is classified as spam (in tags, headers and protocol replies) exactly when its score is >= required_score (5.0 by default).",
  ["inputs", "configurations"],
  "all combinations of rule kinds, scores (negative, zero, fractional), thresholds and messages that hit any subset of the rules",
  "unit tests mock the rules and try one or two scores; the property couples rule selection, summation and the threshold in every output channel for any rule/message subset",
  ["oa/rules/ruleset.py", "oa/rules/base.py"],
  [("RuleSet.match / get_rule / add_rule", "oa/rules/ruleset.py"), ("BaseRule.should_check", "oa/rules/base.py")],
  observe="msg.score, msg.rules_checked, adjusted message, SYMBOLS reply")

P("S02", "Effective rule score follows defaults, nice, score sets and tflags",
  "A rule without a score line weighs 1.0, or -1.0 when its tflags contain `nice`; one score value is used as is, and of four values the one selected by (use_bayes, use_network) is used in the documented order. "
  "A rule tagged net / learn / userconf is disabled when use_network / use_bayes / user_config is off, and one tagged noautolearn is disabled when autolearn is on. "
  "Any other number of score values rejects that rule alone.",
  ["configurations"],
  "all sets of tflags x score vectors x the four global switches, for every rule type",
  "the option space is a product of independent switches and rule types; the tests touch a few points of it",
  ["oa/rules/base.py", "oa/conf.py", "oa/rules/parser.py"],
  [("BaseRule.__init__/preprocess", "oa/rules/base.py")],
  observe="score contributed by the rule when it matches")

P("S03", "Rules are evaluated by descending priority, ties in definition order",
  "Enabled rules are evaluated in order of decreasing integer `priority` (default 0, also used for a non-integer value), and rules of equal priority in the order in which their names first appeared in the configuration. "
  "The order is visible in _TESTS_, _REPORT_, _SUMMARY_ and the SYMBOLS reply and is independent of rule type, of where option lines are placed and of hash seeds.",
  ["configurations"],
  "any multiset of priorities over any mix of rule types and any interleaving of definition and option lines",
  "tests order two or three rules; stability among ties and every rule type honouring its priority is a property of the whole sort",
  ["oa/rules/ruleset.py", "oa/rules/base.py", "oa/rules/header.py"],
  [("RuleSet.post_parsing", "oa/rules/ruleset.py"), ("BaseRule.__lt__", "oa/rules/base.py")],
  observe="order of names in rules_checked / tags")

P("S04", "Meta rules compute the boolean/arithmetic value of their sub-rules",
  "A meta rule matches exactly when its expression, read with the usual precedence of !, arithmetic, comparison, && and ||, is true with each rule name replaced by whether that rule matches the message; sub-rules may be `__` rules, disabled rules or other metas and may be defined later. "
  "A meta that references an undefined rule, exceeds the recursion limit or is not a valid expression is rejected by itself without disturbing the other rules. "
  "Evaluating a meta never adds the scores of its sub-rules.",
  ["inputs", "configurations"],
  "all expressions of the meta grammar (nested, forward-referencing, with names that are prefixes of each other) over all truth assignments",
  "the space is expressions x truth assignments x definition orders; tests use fixed two-operand formulas",
  ["oa/rules/meta.py", "oa/rules/ruleset.py"],
  [("MetaRule.postparsing", "oa/rules/meta.py"), ("RuleSet.call_postparsing", "oa/rules/ruleset.py")],
  observe="whether the meta rule is listed as matched")

P("S05", "body/rawbody/full/uri rules see exactly their documented text",
  "For a message of any MIME structure, `full` searches the raw message; `rawbody` searches the decoded text parts with the markup kept; `body` searches the Subject followed by the decoded text parts with line breaks turned into spaces and HTML tags removed; `uri` searches each URL found in the decoded text parts. "
  "Transfer encodings (7bit, 8bit, quoted-printable, base64) and charsets do not change what is seen, and non-text parts and part headers are never visible to body, rawbody or uri rules.",
  ["inputs"],
  "all MIME trees of text and non-text parts, transfer encodings, charsets, HTML documents and probe strings placed anywhere in them",
  "tests use a handful of hand-written mails; the property is about any nesting, encoding and location of the text",
  ["oa/message.py", "oa/rules/body.py", "oa/rules/full.py", "oa/rules/uri.py"],
  [("Message._parse_message/_iter_parts/normalize_html_part", "oa/message.py"), ("URL_RE", "oa/message.py")],
  observe="whether a probe rule matches")

P("S06", "header rules test the documented view of exactly the named headers",
  "`header X =~ /re/` matches iff some header named X (names compared case-insensitively) has a decoded value that matches; :raw uses the undecoded value, :addr the first address, :name the first display name; ALL sees `Name: value` of every header, ToCc To and Cc, MESSAGEID the three message-id headers, and exists:X only presence. "
  "`!~` matches iff some such value does not match, and a header that is absent never matches with either operator. "
  "Headers of MIME parts and lines of the body are never consulted.",
  ["inputs", "configurations"],
  "all header lists (repeated, folded, RFC 2047 encoded, case-varied names) x all header selectors x both operators",
  "tests fix the header and the rule; the selector/modifier/operator/encoding product and its independence from the body is not sampled",
  ["oa/rules/header.py", "oa/message.py"],
  [("HeaderRule.get_rule and its rule classes", "oa/rules/header.py"), ("Message.get_decoded_header/get_addr_header/get_name_header", "oa/message.py")],
  observe="whether a probe rule matches")

P("S07", "mimeheader rules test the headers of every MIME part",
  "`mimeheader X =~ /re/` matches iff some MIME part of the message (the top-level one included) carries a header X whose decoded value matches, `:raw` likewise on undecoded values, names being case-insensitive; `!~` iff some such value does not match. "
  "Scores, descriptions, priorities and tflags apply to mimeheader rules as to any other rule.",
  ["inputs", "configurations"],
  "all MIME trees with repeated and encoded part headers x selectors x operators",
  "only a couple of single-attachment mails are tested",
  ["oa/rules/header.py", "oa/message.py"],
  [("MimeHeaderRule.get_rule", "oa/rules/header.py"), ("Message._parse_message", "oa/message.py")],
  observe="whether a probe rule matches")

P("S08", "Perl-style patterns mean what they say in every delimiter and flag",
  "For patterns written in the subset of syntax shared by Perl and Python, a rule written as /re/flags, m{re}flags or with any other supported delimiter matches a text iff the regular expression with the i, s, m, x flags finds a match in it; escaped delimiters, delimiter characters at the pattern's edges and inline groups such as (?i:..), (?>..) or \\b? are accepted. "
  "A pattern that has no supported delimiter, is unterminated or does not compile makes only its own rule invalid.",
  ["inputs", "configurations"],
  "all patterns over the shared grammar x delimiters x flag sets x subject texts, and arbitrary garbage patterns",
  "the translation is string surgery; only generated patterns reach the interplay of delimiters, escapes and flags",
  ["oa/regex.py"],
  [("perl2re", "oa/regex.py")],
  observe="perl2re(pattern).match(text)")

# --------------------------------------------------------------------- config
P("C01", "Configuration lines have last-definition-wins, order-tolerant semantics",
  "The loaded ruleset is the one denoted by the lines in file order: a rule's type and value, score, describe, priority and tflags each come from the last such line for its name wherever it is placed, comments (# not preceded by a backslash), blank lines and surrounding whitespace change nothing, and include behaves as the inclusion of the file's lines (files that include each other in a circle are reported as an error, MaxRecursionDepthExceeded, instead of being followed). "
  "Splitting a configuration over several files, or adding comments, blanks or unknown lines, does not change the result for any message.",
  ["configurations"],
  "all sequences of definition/option/comment/include lines over shared rule names, cut into any number of files",
  "tests load short fixed snippets; overriding, interleaving and file-splitting interact",
  ["oa/rules/parser.py"],
  [("PADParser._handle_line/parse_file/get_ruleset", "oa/rules/parser.py")],
  observe="matched rules, scores, descriptions and order")

P("C02", "A bad configuration line never costs more than itself",
  "In the default (non-paranoid) mode any sequence of malformed, unknown or invalid lines (bad regexes, scores, evals, metas, option values, headers, networks, plugins, missing arguments, undecodable bytes) loads without an exception and all well-formed rules and options around it keep their exact effect. "
  "In paranoid mode a configuration with an invalid rule or a syntax error is refused with a parsing error, and one without is accepted with the same result as in the default mode.",
  ["configurations", "fault_sequences"],
  "all interleavings of well-formed lines with corrupted ones of every kind",
  "each kind of corruption interacts with the loader at a different stage (parse, construction, post-parse, match); tests check a few in isolation",
  ["oa/rules/parser.py", "oa/rules/ruleset.py", "oa/conf.py", "oa/context.py"],
  [("PADParser._paranoid", "oa/rules/parser.py"), ("RuleSet.call_postparsing/post_parsing", "oa/rules/ruleset.py"), ("Conf.set_*_option", "oa/conf.py")],
  observe="exceptions and the results of the well-formed rules")

P("C03", "Conditional blocks and plugin availability gate exactly their lines",
  "Lines between `ifplugin X` and its `else`/`endif` take effect iff plugin X is loaded at that point, the `else` branch iff it is not, and blocks nest; lines outside blocks are unaffected. "
  "SpamAssassin plugin names map to their reimplementation, plugins that cannot be loaded are skipped with a warning, and rules using an eval function no loaded plugin provides are dropped alone.",
  ["configurations"],
  "all well-nested block structures over loaded, unloaded and unknown plugins and arbitrary inner lines",
  "tests cover one flat block; nesting, else branches and interaction with loadplugin order are not",
  ["oa/rules/parser.py", "oa/plugins/__init__.py", "oa/context.py"],
  [("PADParser._handle_ifplugin/_handle_line/_handle_loadplugin", "oa/rules/parser.py")],
  observe="set of active rules")

P("C04", "Options parse by declared type; append, split and clear keep a faithful history",
  "After any sequence of option lines each option of the core and of every bundled plugin holds the value denoted by its declared type: the last valid int, float, bool, str, list or timevalue given, or for append/append_split types the concatenation in order since the last matching clear line; untouched options hold their documented default. "
  "An invalid value leaves the option as it was.",
  ["configurations", "histories"],
  "all sequences of option lines over every declared option, valid and invalid values, and clear lines",
  "option state is a fold over history across about a hundred options; tests set one option once",
  ["oa/conf.py", "oa/plugins/base.py"],
  [("Conf.set_*_option / parse_config", "oa/conf.py")],
  observe="ctxt.conf[...] and plugin.get_global(...)")

P("C05", "Loading a configuration depends only on its own files",
  "A ruleset built from a set of files in a fresh process and one built from the same files after any other configurations were loaded, matched or discarded in the same process give identical options, networks, rules, verdicts, reports and headers for every message. "
  "Several live rulesets (reloads, per-user rulesets) never influence one another.",
  ["histories", "configurations"],
  "all sequences of loading and using configurations with any options and plugins",
  "leaks need a history: an earlier configuration must set what a later one leaves alone",
  ["oa/conf.py", "oa/networks.py", "oa/context.py", "oa/server.py", "oa/plugins"],
  [("Conf.__init__ defaults", "oa/conf.py"), ("NetworkList", "oa/networks.py"), ("Server.load_config/get_user_ruleset", "oa/server.py")],
  state="module/class-level state of the process", observe="differential against a fresh process")

P("C06", "Lazy and eager regex/header modes are observably identical",
  "Running with lazy loading deactivated (-dl, LAZY_MODE False) gives for every configuration and message the same score, matched rules, report, adjusted message and parsed relays as the default lazy mode.",
  ["configurations", "inputs"],
  "all configurations and messages, including repeated headers, several messages per ruleset and plugins that add headers",
  "caching changes evaluation order and lifetime; tests run in one mode",
  ["oa/message.py", "oa/regex.py", "oa/config.py"],
  [("_memoize", "oa/message.py"), ("Regex.compile", "oa/regex.py")],
  observe="differential between the two modes")

# -------------------------------------------------------------------- message
P("M01", "Any text is scanned: parsing, matching and reporting never raise",
  "For every string presented as a message (arbitrary bytes decoded as UTF-8 with errors ignored, truncated or corrupted MIME, hostile headers, charsets, encodings, addresses, dates, Received lines, HTML, PDF and image payloads), with any of the bundled offline-capable plugins and their eval rules active, constructing the message, matching it and producing the report and the adjusted message all terminate without an exception.",
  ["inputs", "configurations"],
  "all byte strings, biased to structurally damaged MIME mails, x subsets of plugins",
  "crashes hide in rare combinations of malformed structure and plugin code; a scanner that throws on a mail lets it through or blocks the queue",
  ["oa/message.py", "oa/received_parser.py", "oa/rules/ruleset.py", "oa/plugins"],
  [("Message.__init__", "oa/message.py"), ("_callback_chain hooks", "oa/context.py")],
  observe="exceptions, CPU time")

P("M02", "Line-ending style does not change the result",
  "A message and the same message with its LF line breaks replaced by CRLF or CR throughout produce the same score, matched rules, report, relays, text, URIs and adjusted message.",
  ["inputs"],
  "all messages x the three line-ending styles",
  "MTAs deliver both styles; tests use one",
  ["oa/message.py"],
  [("Message.translate_line_breaks", "oa/message.py")],
  observe="metamorphic comparison of all outputs")

P("M03", "A message's result depends only on the message and the ruleset",
  "Scanning messages one after another with one ruleset gives each the same score, matched rules, report, tags and adjusted message as scanning it alone with a freshly loaded copy of the ruleset, for every order and repetition of messages and every non-learning plugin; scanning leaves the options and the rules as they were.",
  ["histories", "inputs"],
  "all sequences of messages over rulesets that use the bundled plugins",
  "leaks appear only on the second message and only for particular pairs",
  ["oa/context.py", "oa/message.py", "oa/plugins"],
  [("set_local/set_global data", "oa/context.py"), ("MessageContext", "oa/context.py")],
  state="GlobalContext.plugin_data, plugin instances", observe="differential against isolated scans")

P("M04", "Envelope sender and sender/recipient address sets follow the documented headers",
  "The envelope sender is the envfrom of the first external relay (none if that relay has none), or with only internal relays of the last trusted / first untrusted relay, otherwise the first address of the first present header among envelope_sender_header (or the default list); addresses are extracted from every header of the From and To families in documented order, with Resent-* headers taking precedence. "
  "check_from/to list rules, SPF and AWL all see these addresses.",
  ["inputs", "configurations"],
  "all presence/absence/repetition patterns of sender and recipient headers, relays and options",
  "precedence among a dozen headers is a lattice the tests sample at two points",
  ["oa/message.py"],
  [("Message._parse_sender, get_from_addresses, get_to_addresses", "oa/message.py")],
  observe="msg.sender_address and address generators")

# --------------------------------------------------------------------- output
P("O01", "Adjusted message preserves the original and marks spam as configured",
  "For a ham message, or with report_safe 0, or headers-only, the output has the original headers and body in order and unchanged, plus only the configured header changes and (spam with report_safe 0) X-Spam-Report; for spam with report_safe 1 or 2 the output is a multipart/mixed message with a text part holding the report followed by a message/rfc882 (sic: the type string of report_safe 1) or text/plain part holding the complete original. "
  "Output parses back as a MIME message with those parts.",
  ["inputs", "configurations"],
  "all messages (nested MIME, 8-bit, odd headers) x report_safe x verdict x header options",
  "mail corruption shows only for unusual originals; tests compare templates",
  ["oa/rules/ruleset.py"],
  [("RuleSet.get_adjusted_message/_get_bounce_message", "oa/rules/ruleset.py")],
  observe="parsed adjusted message")

P("O02", "add_header/remove_header/clear_headers apply as configured",
  "Each surviving add_header line for `all` or for the message's class adds exactly one X-Spam-<name> header with the interpolated text, in order; each remove_header removes every X-Spam-<name> header present at that point (the lines for `all` are applied before those for the message's class); lines before the last clear_headers have no effect, and no other header is added or lost.",
  ["configurations", "inputs"],
  "all sequences of add/remove/clear lines for the three classes x messages that already carry X-Spam headers x both verdicts",
  "a small language with order and class interaction; tests use one header at a time",
  ["oa/rules/ruleset.py", "oa/conf.py"],
  [("RuleSet._add_header_rule/_adjust_headers", "oa/rules/ruleset.py")],
  observe="headers of the adjusted message")

P("O03", "Reports and tags describe exactly the rules that matched",
  "_TESTS_, _TESTSSCORES_, _REPORT_ and _SUMMARY_ list every matched rule once, in evaluation order, with its effective score, type prefix and description, and nothing else (`none` for empty _TESTS_); _SCORE_, _REQD_, _YESNO_, _YESNOCAPS_, _CONTACTADDRESS_, _VERSION_, _PREVIEW_ and the relay tags have their documented values wherever a template or header uses them. "
  "All other template text, including % signs, is reproduced verbatim, line by line, in order.",
  ["configurations", "inputs"],
  "all templates mixing text and tags x rulesets x messages",
  "interpolation meets arbitrary text; tests use fixed templates without special characters",
  ["oa/rules/ruleset.py", "oa/message.py"],
  [("RuleSet._interpolate/_convert_tags/get_matched_report/get_summary_report", "oa/rules/ruleset.py")],
  observe="report text")

# -------------------------------------------------------------------- network
P("N01", "Network lists: first match decides, loopback always trusted",
  "For any sequence of trusted_networks, internal_networks and msa_networks entries (CIDR, partial dotted prefixes, IPv6, brackets, `!` exclusions), an address is in a list iff the first listed network containing it, in configuration order after the built-in loopback networks, is not an exclusion; internal entries count as trusted too, and trusted entries as internal when no internal networks are configured. "
  "Entries that are not networks are ignored.",
  ["configurations", "inputs"],
  "all sequences of entries of every syntax x addresses of both families, biased to network boundaries",
  "first-match-with-exclusions over overlapping prefixes is a set-algebra property; tests probe a few addresses",
  ["oa/networks.py", "oa/context.py"],
  [("NetworkListBase.__contains__, NetworkList.add_*", "oa/networks.py"), ("GlobalContext._add_networks", "oa/context.py")],
  observe="ip in ctxt.networks.<list>")

P("N02", "Relays are split into trusted/untrusted and internal/external along the path",
  "Walking the parsed Received headers from the newest, relays stay trusted (internal) while each is in trusted (internal) networks or authenticated - or private when no networks are configured - and everything after the first break is untrusted (external); a relay inside msa_networks extends its own classification to all older relays. "
  "Every parsed relay with an IP is in exactly one list of each pair, in order, and the _RELAYS*_ and _LASTEXTERNAL*_ tags describe those lists.",
  ["inputs", "configurations"],
  "all relay paths x network configurations x authentication placement",
  "classification is a fold over the path; tests use paths of one or two relays",
  ["oa/message.py", "oa/networks.py"],
  [("Message._parse_relays", "oa/message.py")],
  observe="relay lists and tags of the message")

P("N03", "Received headers of known MTAs are parsed to their fields",
  "A Received header produced from the template of a supported MTA (Sendmail, Postfix, Exim, qmail, Exchange, Google, CommuniGate, Sophos and the others of the parser) yields one relay whose ip, rdns, helo, by, id, ident, envfrom and auth are those put into the template, for all host names, addresses and identifiers. "
  "Headers of fetchmail/local handovers that carry no relay are skipped and never attributed to a relay, and order is preserved.",
  ["inputs"],
  "all instantiations of the MTA templates with generated hosts, addresses, ids and identities, in any order",
  "each template is a regex with optional groups; tests have one literal example each",
  ["oa/received_parser.py"],
  [("ReceivedParser", "oa/received_parser.py")],
  observe="ReceivedParser(headers).received")

P("N04", "DNS lookups obey availability and query restrictions",
  "With dns_available no, or for a name whose closest listed ancestor-or-self in dns_query_restriction is `deny`, no query is sent and the lookup yields nothing; otherwise the query is sent unchanged for exactly the requested name and type, failures of the resolver count as no answer, and dns_server/timeouts/ports configured are those used.",
  ["configurations", "inputs", "fault_sequences"],
  "all restriction lists x names (any depth, with trailing dot) x availability settings x resolver outcomes",
  "the closest-ancestor rule is a property of name trees; resolver failures need injection",
  ["oa/dns_interface.py", "oa/rules/ruleset.py", "oa/context.py"],
  [("DNSInterface.query/is_query_restricted/available", "oa/dns_interface.py")],
  observe="queries seen by a stand-in resolver")

P("N05", "DNSBL rules query the reversed untrusted addresses and honour the mask",
  "check_rbl, check_rbl_sub and check_rbl_txt query exactly the reversed-octet (or nibble) names of the message's relay addresses outside trusted_networks (limited by -firsttrusted/-lastexternal/-untrusted style set suffixes as implemented) under the given zone, match iff an answer exists and satisfies the optional sub-test (address pattern or bitmask), and make no query when skip_rbl_checks is set. "
  "check_rbl_from_host/domain/envfrom and check_dns_sender query the corresponding sender names only.",
  ["inputs", "configurations", "fault_sequences"],
  "all relay paths x zones x sub-tests x answer tables of a stand-in resolver",
  "needs a DNS the test controls; correctness is about every address and answer combination",
  ["oa/plugins/dns_eval.py", "oa/dns_interface.py"],
  [("DNSEval.*", "oa/plugins/dns_eval.py"), ("reverse_ip", "oa/dns_interface.py")],
  observe="queries seen and rule result")

# ------------------------------------------------------------------- protocol
P("D01", "Daemon replies agree with scanning the message directly",
  "For CHECK, SYMBOLS, REPORT, REPORT_IFSPAM, PROCESS and HEADERS and every message, the reply is `SPAMD/<version> 0 EX_OK`, a Spam line with the verdict, score and threshold of matching that message, a Content-length equal to the number of body bytes, and a body that is respectively empty, the matched rule names, the report, the report only for spam, the adjusted message, and its headers. "
  "PING answers PONG, SKIP answers nothing, and the CLI prints the same report and adjusted message.",
  ["inputs", "configurations"],
  "all commands x messages (non-ASCII included) x configurations, through the daemon's request handler and the CLI",
  "functional tests run one spam mail per command; byte counts and verdict consistency are properties of all mails",
  ["oa/protocol", "oa/server.py", "scripts/match.py"],
  [("CheckCommand and subclasses", "oa/protocol/check.py"), ("RequestHandler.handle", "oa/server.py")],
  observe="bytes written to the client")

P("D02", "Request framing: the message scanned is the message sent",
  "For any message bytes, request-header order/case and delivery in arbitrary chunk sizes, with or without Content-length and with or without zlib compression, the daemon scans exactly the bytes sent: limited to Content-length when given, otherwise up to end of stream, decoded as the CLI does; the verdict and body equal those of one unfragmented uncompressed request.",
  ["inputs", "schedules"],
  "all messages (multi-byte, invalid UTF-8, larger than the read buffer) x Content-length x fragmentation x compression",
  "boundary effects need sizes around the buffer and multi-byte characters across it",
  ["oa/protocol/base.py"],
  [("BaseProtocol.get_message/get_options", "oa/protocol/base.py")],
  observe="reply compared with the direct scan")

P("D03", "Malformed requests get an error reply and never disturb later ones",
  "Any byte sequence sent as a request ends with a SPAMD reply or a closed connection: unknown commands and malformed request lines or headers, negative or non-numeric Content-length get a `76 Bad header line` reply, no exception escapes the handler, and the next well-formed request on the same server is answered as if the malformed one had not happened.",
  ["inputs", "fault_sequences", "histories"],
  "all byte strings as requests, interleaved with well-formed ones",
  "robustness against hostile clients is a property of all inputs and of sequences",
  ["oa/server.py", "oa/protocol"],
  [("RequestHandler.handle", "oa/server.py"), ("BaseProtocol.get_and_handle", "oa/protocol/base.py")],
  observe="replies and exceptions of the handler")

P("D04", "TELL routes exactly the requested report/revoke actions",
  "TELL with Set invokes each loaded plugin's report hook once with the message, with Remove the revoke hook once, with both in order both, with neither none; message-class and the local/remote targets given are those passed, and the reply has exactly the DidSet/DidRemove lines asked for.",
  ["inputs", "configurations"],
  "all combinations of message-class, Set, Remove, targets and header spellings",
  "learning the wrong way poisons the filters silently; tests use two header sets",
  ["oa/protocol/tell.py", "oa/context.py"],
  [("TellCommand.handle", "oa/protocol/tell.py"), ("GlobalContext.hook_report/hook_revoke", "oa/context.py")],
  observe="calls recorded by a plugin, reply")

P("D05", "User preferences apply to that user only and only when allowed",
  "With allow_user_rules on, a request for user U is scanned with the site configuration overlaid with U's preferences file, exactly as if that file had been loaded after the site files; without it, without a User header, or when the user has no preferences file, the site ruleset is used. "
  "No user's preferences ever change another user's or the site's results, and reload picks up changes.",
  ["histories", "configurations"],
  "all interleavings of requests from users with differing preferences, reloads and preference changes",
  "needs sequences of requests by different users and a model of overlaying",
  ["oa/server.py"],
  [("Server.get_user_ruleset/load_config", "oa/server.py")],
  state="Server._user_rulesets", observe="replies per user against a directly loaded ruleset")

# -------------------------------------------------------------------- plugins
P("D06", "Reloading the daemon takes effect completely, at once and for everyone; stopping is graceful",
  "While requests are served, a reload (USR1 to the main process, or the script's reload action) replaces the whole configuration at once: every reply is the one of a single version, no older than the last reload completed before the request and no newer than what has been loaded, for all workers of a preforked daemon and for users with and without preferences; of overlapping reloads the last one wins, and one that fails changes nothing. "
  "Stopping (TERM, or the stop action) lets the requests being handled complete, ends every process and removes the pid file, wherever the paths given are relative to.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of requests, file changes and reloads, and all numbers of workers",
  "reloading runs in a thread of its own, next to the requests; tests never reload",
  ["oa/server.py", "scripts/oad.py"],
  [("Server.load_config/get_user_ruleset, PreForkServer", "oa/server.py"), ("run_daemon, main", "scripts/oad.py")],
  observe="replies, processes and pid file")

P("D07", "The command line handles every message given to it, each on its own",
  "match.py processes each message once, in the order of its arguments (files, the regular files of directories by name, - or no argument for the standard input): the output is the concatenation of what each message gives alone (adjusted message; the report with -R; followed by the report with -t), and -r / -k report / revoke each message with every plugin and print how many there were. "
  "It exits with 1, without handling any message, iff there is no configuration, it includes itself, or has an error with --paranoid.",
  ["inputs", "configurations"],
  "all lists of files and directories x modes x configurations",
  "tests run one message at a time",
  ["scripts/match.py"],
  [("main, MessageList", "scripts/match.py")],
  observe="standard output, hook calls and exit status")

P("G01", "Short-circuiting stops exactly at the first matching flagged rule",
  "Rules are evaluated in order until the first matching rule with shortcircuit on/spam/ham; rules after it are neither evaluated nor reported, the score is the total up to and including that rule plus shortcircuit_spam_score or shortcircuit_ham_score for spam/ham, and SCRULE, SCTYPE and SC tags name it (none otherwise). "
  "off, or no match, behaves as without the plugin.",
  ["configurations", "inputs"],
  "all rule orders, priorities, shortcircuit types and hit patterns",
  "depends on order, type and hit pattern together",
  ["oa/plugins/short_circuit.py", "oa/rules/ruleset.py"],
  [("ShortCircuit", "oa/plugins/short_circuit.py"), ("RuleSet.match StopProcessing", "oa/rules/ruleset.py")],
  observe="score, matched rules, tags, report")

P("G02", "Replace tags expand to their definitions only in the listed rules",
  "For rules named by replace_rules every tag written between replace_start and replace_end that is defined by replace_tag is replaced by its expression, with <pre>, <post> and <inter> modifiers expanded around and between tags as documented; unknown tags and rules not listed are left as written, so that the rule matches iff the expanded expression does.",
  ["configurations", "inputs"],
  "all sets of tags, modifiers, delimiters and rule patterns using them",
  "string rewriting of patterns; tests have a few fixed rewrites",
  ["oa/plugins/replace_tags.py"],
  [("ReplaceTags", "oa/plugins/replace_tags.py")],
  observe="match of the rewritten rule")

P("G03", "White/black lists match exactly the listed address patterns",
  "check_from/to_in_whitelist/blacklist/more_spam/all_spam/list match iff some sender (recipient) address of the message matches, case-insensitively and in full, one of the listed globs (`*` any characters, `?` at most one character, everything else literal; a pattern without @ is for the domain) of that list; entries for one list never affect another. "
  "rcvd lists match iff such an address arrived through a listed relay name (whole labels), address or network, and the forged rules iff it is listed but arrived only through others and is not in whitelist_allow_relays. check_mailfrom_matches_rcvd matches iff the relay's name is in the sender's registered domain. "
  "URI host lists match iff the host of some URL in the body is a listed host or below one and not exempted or delisted. Subject lists match iff a listed expression matches at the start of the Subject.",
  ["inputs", "configurations"],
  "all glob patterns x addresses, biased to near misses (prefix, suffix, dots, metacharacters) x lists",
  "over-matching whitelists are security holes visible only on near-miss inputs",
  ["oa/plugins/wlbl_eval.py", "oa/plugins/whitelist_subject.py"],
  [("WLBLEvalPlugin", "oa/plugins/wlbl_eval.py"), ("WhiteListSubjectPlugin", "oa/plugins/whitelist_subject.py")],
  observe="rule results")

P("G04", "uri_detail rules match iff one URI satisfies every listed condition",
  "A uri_detail rule with conditions on raw, cleaned, domain, scheme and text matches iff some URI of the message satisfies all of them (=~ found, !~ not found), where domain is the network location of the URI and text the text of the anchor (with nested elements) that holds it; the rule honours score, describe, priority and tflags.",
  ["inputs", "configurations"],
  "all HTML/text bodies with generated links x condition sets",
  "conjunction over the same URI versus across URIs is only distinguished by generated link sets",
  ["oa/plugins/uri_detail.py", "oa/html_parser.py"],
  [("URIDetailRule.match", "oa/plugins/uri_detail.py"), ("HTMLParser", "oa/html_parser.py")],
  observe="rule result")

P("G05", "Body, MIME and header eval checks compute their documented measure",
  "The numeric and structural eval rules match iff the documented quantity of the message lies in the range given as arguments, for every message and all bounds, including the boundaries: "
  "blank line ratio, difference of the alternative parts, vertical words, stock-information words; MIME part counts, HTML-only, multipart ratio, non-text parts, longest base64 line, quoted-printable ratio and long lines, unicode ratio, illegal ASCII text, truncated headers, epilogue; "
  "uppercase percentage, similar and sorted recipients, missing To, numbers of header values, all-capitals Subject, unresolved templates, To in Subject, illegal characters, date shift and months since reception; "
  "http redirectors, https links with another IP, truncated URIs. "
  "Evaluating a rule changes neither the message nor the results of other rules.",
  ["inputs", "configurations"],
  "all messages with generated text, structure and headers x argument ranges, with bounds placed on and next to the true value",
  "off-by-one and wrong-denominator errors live on boundaries",
  ["oa/plugins/body_eval.py", "oa/plugins/mime_eval.py", "oa/plugins/header_eval.py", "oa/plugins/uri_eval.py"],
  [("BodyEval", "oa/plugins/body_eval.py"), ("MIMEEval", "oa/plugins/mime_eval.py"), ("HeaderEval", "oa/plugins/header_eval.py"), ("URIEvalPlugin", "oa/plugins/uri_eval.py")],
  observe="rule results against reference computations")

P("G06", "Image and PDF checks count and measure the real attachments",
  "image_count, image_named, image_name_regex, image_size_exact/range, pixel_coverage and image_to_text_ratio, and pdf_count, pdf_named, pdf_name_regex, pdf_match_md5/fuzzy_md5, pdf_match_details, pdf_is_encrypted and pdf_is_empty_body match iff the attached GIF/PNG/JPEG or PDF files of the message have the stated number, names, dimensions, area, digest or metadata, whatever their encoding, order and position; every copy of a file counts.",
  ["inputs"],
  "all sets of generated images and PDFs (types, sizes, names, nesting) x argument ranges on and around the true values",
  "tests use a few fixed attachments",
  ["oa/plugins/image_info.py", "oa/plugins/pdf_info.py"],
  [("ImageInfoPlugin", "oa/plugins/image_info.py"), ("PDFInfoPlugin", "oa/plugins/pdf_info.py")],
  observe="rule results")

P("G07", "Freemail rules recognise exactly the configured domains and exemptions",
  "check_freemail_from/header/body/replyto match iff the relevant addresses of the message belong to freemail_domains (with ? and * not crossing dots, ignoring case) below a configured TLD and are neither exempt through freemail_whitelist nor, for bodies and replies, beyond the configured maxima; optional regex arguments further restrict the address, and reply-to matching requires two different freemail addresses (with the option `reply`, a Reply-To freemail when From is none).",
  ["inputs", "configurations"],
  "all sets of addresses in sender, reply and body positions x domain globs x whitelists x limits",
  "near-miss domains and limit boundaries are not sampled by tests",
  ["oa/plugins/free_mail.py"],
  [("FreeMailPlugin", "oa/plugins/free_mail.py")],
  observe="rule results")

P("G08", "Relay checks (relay_eval) judge exactly the relay data",
  "check_for_numeric_helo, check_all_trusted, check_no_relays, check_for_sender_no_reverse, check_for_no_rdns_dotcom_helo, helo_ip_mismatch, check_for_forged_received_trail, check_for_forged_received_ip_helo and check_for_from_domain_in_received_headers each match iff the relays parsed from the message satisfy the documented condition; a received trail is forged iff more than one relay was received by a host outside the registered domain of the next newer relay's reverse name.",
  ["inputs", "configurations"],
  "all relay paths x network settings x From domains",
  "conditions quantify over relay positions; tests use one header",
  ["oa/plugins/relay_eval.py"],
  [("RelayEval", "oa/plugins/relay_eval.py")],
  observe="rule results")

P("G09", "SPF verdicts follow the header result or the evaluated one",
  "With usable Received-SPF headers (or, without any, an Authentication-Results header) the check_for_spf_* and helo variants report exactly the result named in the header selected by use_newest_received_spf_header for that identity, ignoring case; for identities not found there, and with ignore_received_spf_header for all, exactly the result of evaluating SPF for the external relay's address, HELO and envelope sender; at most one of the result rules of an identity matches. "
  "The SPF whitelist rules match iff the mail-from result is pass and the whole sender address matches an entry of their list.",
  ["inputs", "configurations", "fault_sequences"],
  "all lists of Received-SPF headers x option settings x stand-in SPF outcomes",
  "selection among several headers and mutual exclusion need combinations",
  ["oa/plugins/spf.py"],
  [("SpfPlugin", "oa/plugins/spf.py")],
  observe="rule results")

P("G10", "Bayes learning is reversible bookkeeping and its score follows the counts",
  "Training changes the ham/spam message counts and token counts by exactly the message's own tokens, training the same message twice as the same class changes nothing, forgetting restores the previous counts, and retraining as the other class moves them; plain scanning changes no count. "
  "A message is scored iff use_bayes, use_learner and use_bayes_rules are on, both minimum numbers of messages are learned, it is neither from nor to an ignored address and it has significant tokens; the score is the chi-square combination of the Robinson probabilities of its (at most 150) most significant tokens, lies in [0,1], and check_bayes matches iff it is above the minimum (or that is 0) and not above the maximum.",
  ["histories", "inputs"],
  "all sequences of learn/forget/scan over generated messages against a reference counter model",
  "database state is a fold over history; tests mock the store",
  ["oa/plugins/bayes.py", "oa/db/bayes"],
  [("BayesPlugin.learn/forget/scan", "oa/plugins/bayes.py"), ("Store", "oa/db/bayes/sqlalchemy.py")],
  state="bayes token store", observe="store contents and check_bayes results")

P("G11", "Auto-learning fires only for confident verdicts that meet every requirement",
  "A scanned message is submitted for learning as spam (ham) iff its auto-learn score, the sum over matched rules without noautolearn/userconf/learn flags, reaches bayes_auto_learn_threshold_spam (is below the nonspam threshold), its total score is above (below) required_score, and, for spam, header rules and body rules have 3 points each (meta rules count for both; no minimum when a matched rule is flagged autolearn_force) and learn rules at least -1 points, for ham learn rules at most 1 point; with bayes_auto_learn_on_error only if BAYES_99 (BAYES_00) did not already match. Otherwise it is never submitted.",
  ["inputs", "configurations"],
  "all hit patterns over rules with every tflag, type and score x thresholds",
  "the decision is a conjunction of six conditions over sums",
  ["oa/plugins/auto_learn_threshold.py"],
  [("AutoLearnThreshold.auto_learn_discriminator", "oa/plugins/auto_learn_threshold.py")],
  observe="learn hook calls")

P("G12", "Auto-whitelist moves the score toward the sender's own history",
  "The n-th message of a sender identity has its score adjusted by (mean - score) * auto_whitelist_factor, where mean is over that identity's earlier recorded scores only; nothing is adjusted for the first message, and the stored count and total grow by one and by the unadjusted score. "
  "An identity is the From address together with the masked address of the oldest public relay, or with the signing domain of a DKIM-Signature header; the history of an address without relay passes to its first relay address. Other identities are untouched.",
  ["histories"],
  "all sequences of messages from several senders and addresses against a reference model",
  "an averaging history cannot be sampled by single-message tests",
  ["oa/plugins/awl.py"],
  [("AutoWhiteListPlugin", "oa/plugins/awl.py")],
  state="AWL table", observe="score after scanning and table contents")

P("G13", "External reporters/checkers are consulted only when enabled and fail soft",
  "Pyzor, Razor2 and SpamCop are contacted only when their switch is on (use_pyzor, use_razor2, not dont_report_to_spamcop) and only in the operation they are for (checks while scanning, reports and revocations on request). "
  "The Pyzor rule matches iff some configured server counts at least pyzor_max reports and no whitelisting of the message, every Razor rule iff razor-check succeeds on the message; reports to SpamCop are made for messages received less than two days ago, truncated at the maximum size. "
  "Any failure or timeout of a service yields no match and affects neither the other servers, rules and plugins nor the operation.",
  ["inputs", "configurations", "fault_sequences"],
  "all switch settings x service answers and failures injected by stand-ins",
  "failure behaviour needs injected faults at each call",
  ["oa/plugins/pyzor.py", "oa/plugins/razor2.py", "oa/plugins/spam_cop.py"],
  [("PyzorPlugin.check_pyzor", "oa/plugins/pyzor.py"), ("Razor2Plugin", "oa/plugins/razor2.py"), ("SpamCopPlugin.plugin_report", "oa/plugins/spam_cop.py")],
  observe="calls to the stand-ins and rule results")

P("G14", "DKIM verdict rules agree with the signature verification outcome",
  "For the first DKIM signature of a message, check_dkim_signed matches iff it is of the author's domain (ignoring case), check_dkim_valid and check_dkim_valid_author_sig iff it is and it verifies with the published key of at least dkim_minimum_key_bits; with domain arguments only if the signing domain is one of them or below. Altering a signed header or the body, or a key that is wrong, revoked or not to be had, makes the rules for validity fail. "
  "The whitelist rules match iff the signature is valid and the whole author address matches an entry (with its domain, if any); ADSP rules match iff there is no valid signature and the practice of the author's domain (overridden for the domain or by a pattern, discardable by default) is theirs.",
  ["inputs", "configurations", "fault_sequences"],
  "all signed messages (keys served by a stand-in resolver) x tampering x domains x overrides",
  "needs real signatures over generated mails and tampering",
  ["oa/plugins/dkim.py"],
  [("DKIMPlugin", "oa/plugins/dkim.py")],
  observe="rule results")

P("G15", "Charset locale rules accept exactly the allowed locales",
  "is_charset_ok_for_locales accepts a charset iff the list of locales has `all` or a locale whose documented set of charsets contains it (western and Unicode charsets always being fine), independent of case, punctuation and order of the list. "
  "check_for_faraway_charset_in_headers matches iff ok_locales is set and the charset of some segment of Subject or From isn't accepted (segments without a charset are never); check_for_faraway_charset iff the charset some text part names isn't accepted and some text part has more non-ASCII than ASCII characters.",
  ["inputs", "configurations"],
  "all charset names (case/punctuation variants) x locale lists",
  "a table lookup with normalisation; tests try a few names",
  ["oa/locales.py", "oa/plugins/mime_eval.py", "oa/plugins/header_eval.py"],
  [("is_charset_ok_for_locales", "oa/locales.py")],
  observe="function and rule results")

P("G16", "Plugin registration: loading, replacing and unloading are exact inverses",
  "Loading a plugin makes exactly its eval rules, commands, options and hooks available, and loading it again replaces it; unloading removes exactly those, brings back what it had redefined of the others and leaves their registrations and data, other contexts and the modules already loaded as they were; a plugin that can't be loaded leaves nothing registered. "
  "Hooks run once per loaded plugin, in load order until one inhibits further callbacks.",
  ["histories"],
  "all sequences of load/unload/reload of generated plugins with overlapping names",
  "a registry is a history property",
  ["oa/context.py", "oa/plugins/base.py"],
  [("GlobalContext.load_plugin/unload_plugin/_callback_chain", "oa/context.py")],
  observe="ctxt.plugins, eval_rules, cmds and hook traces")

P("G17", "Configuration files are loaded in the documented order",
  "get_config_files returns, for any directory contents, site .pre then default .pre, default .cf then site .cf, each group sorted by name, followed by the user preferences file, and nothing else: each existing file (not directories or dangling links) once, also when both directories are the same, however their paths are written. "
  "The configuration loaded has the rules of all the files and the settings of the last one.",
  ["configurations"],
  "all directory contents (names, extensions, subdirectories, same directory twice, missing preferences)",
  "ordering over arbitrary directory listings",
  ["oa/config.py"],
  [("get_config_files", "oa/config.py")],
  observe="list returned")

P("G18", "The countries of the relays are those of the database",
  "With the RelayCountry plugin, the tag RELAYCOUNTRY and the header X-Relay-Countries that rules see list the country of the address of every Received header, in the order of the headers, separated by spaces: ** for private addresses, otherwise the country the database for that version of IP gives (the longest listed network that contains the address), XX if it gives none. "
  "A database that is missing, unreadable, damaged or of another kind gives XX for its addresses; it stops neither the loading of the configuration nor the scan.",
  ["inputs", "configurations", "faults"],
  "all databases and relay paths, and all ways a database can be unusable",
  "tests mock the database reader and look up one address",
  ["oa/plugins/relay_country.py"],
  [("RelayCountryPlugin", "oa/plugins/relay_country.py")],
  observe="tags and matched rules")

P("G19", "A message is in an unwanted language iff a likely language is not listed",
  "check_language matches iff the languages detected in the text of the message with a probability over textcat_acceptable_prob are at most textcat_max_languages, one of them is not in ok_languages, and ok_languages is neither unset nor contains all. The tag LANGUAGES lists these languages in the order of their probabilities. A text whose language can't be detected is never unwanted, and the same message always gets the same result.",
  ["inputs", "configurations"],
  "all results of the detection and all settings of the options",
  "tests use one text and a few settings",
  ["oa/plugins/textcat.py"],
  [("TextCatPlugin.check_language", "oa/plugins/textcat.py")],
  observe="matched rules, score and tags")

P("G20", "Plugins are told of every event once, in order, with what it is about",
  "Every hook is called once per event for every loaded plugin, in the order in which they were loaded: finish_parsing_start and finish_parsing_end once per configuration (all rules parsed; all rules ready); check_start, extract_metadata for each MIME part (payload and text of the text parts, None otherwise) and parsed_metadata once per message, before any rule; check_end and auto_learn_discriminator after the last rule, also if the check was short-circuited, with the final score and results; plugin_report / plugin_revoke when the message is reported / revoked. "
  "A plugin that inhibits further callbacks stops the remaining plugins for that event only. An option goes to the first plugin that defines it. Data a plugin stores with a message or globally is its own: no other plugin and no other message sees it, and it lasts as long as the message or the configuration.",
  ["histories", "configurations"],
  "all sets and orders of plugins, all inhibitions and all histories of messages",
  "tests call single hooks on mocks",
  ["oa/context.py", "oa/message.py", "oa/rules/ruleset.py", "oa/rules/parser.py"],
  [("GlobalContext/MessageContext hooks, _callback_chain", "oa/context.py"), ("Message._parse_message", "oa/message.py"), ("BasePlugin", "oa/plugins/base.py")],
  observe="recorded calls")
