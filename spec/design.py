# -*- coding: utf-8 -*-
"""Per property: (technique named in MANIFEST.json, the oracle and why it reaches what tests cannot). tools/gen.py and tools/gen_design.py use it."""

D = {
"S01": ("property-based testing against a reference model (sum and threshold)",
        "The oracle adds the scores of the rules whose trigger words were put in the message; the threshold is placed on, just above and just below that sum. Score, matched names, headers, the report and the SYMBOLS / CHECK replies must agree with it, so that one channel using another comparison or sum shows."),
"S02": ("property-based testing against a reference model (decision table)",
        "A decision table over (number of scores, tflags, four switches) written from the documentation. The whole product of switches, flags and vectors is small enough that 2 000 cases cover each combination for each rule type."),
"S03": ("property-based testing against a reference model (stable sort)",
        "Python's stable sort over (−priority, first appearance). All rules hit, so the order of the matched rules in _TESTS_, _REPORT_, _SUMMARY_ and SYMBOLS is the order of evaluation."),
"S04": ("property-based testing with a grammar-based generator against a reference evaluator",
        "Expressions are generated as trees, rendered with the minimal or with redundant parentheses, and evaluated by a separate evaluator over the truth values of the leaves (which are known, because the leaves look for words put in the message or left out). Chains, cycles and undefined names check that a broken meta costs only itself."),
"S05": ("property-based testing against a reference model (what each view holds)",
        "The generator plants unique words and URLs at known places of a MIME tree (text, markup, attribute, comment, part header, preamble, binary part) before encoding it. Which rule type sees which word follows from the place alone."),
"S06": ("property-based testing against a reference model (header views)",
        "The header list is generated structurally (decoded value, display names, addresses, folding, encoding) and only then rendered; the model evaluates each rule on the structure. Tails, parts and bodies repeat the same words as near misses."),
"S07": ("property-based testing against a reference model (part headers)",
        "As S06 for the headers of each MIME part."),
"S08": ("property-based testing with a grammar-based generator, differential against CPython's re",
        "Patterns are generated as syntax trees and rendered twice: as the Perl-style literal given to OrangeAssassin (delimiter, m prefix, flags, escapes) and as a plain pattern run by CPython's re, another implementation than the PyPy one under test. Garbage patterns must be refused alone."),
"C01": ("property-based testing against a reference fold, metamorphic over layouts",
        "The lines are folded (last definition wins) by the oracle; the same lines spread over files and includes, with comments, blanks, CRLF and escaped # must give the same rules, scores, descriptions and order."),
"C02": ("property-based testing, metamorphic: with and without the corrupted lines",
        "The output of a configuration with corrupted lines inserted must be that of the configuration without them; in paranoid mode the load must fail with one of the documented errors, and never with another."),
"C03": ("property-based testing against a reference interpreter of the block structure",
        "The blocks are generated as a tree and interpreted by the oracle: which lines are live is known before they are written to the file."),
"C04": ("property-based testing against a typed fold",
        "The frozen table of data/options.json (name, type, default, owner) drives a fold over the generated lines; every option of the core and of the loaded plugins is read back afterwards. Defaults of other contexts must stay untouched."),
"C05": ("stateful property-based testing, differential against a fresh process",
        "Loads, scans and drops happen in one process in a generated order; each result must equal that of the same load and scan alone in a fresh process."),
"C06": ("property-based testing, differential between lazy and eager mode",
        "The same configuration and mail in both modes; all observables (including 16 views of generated header names read by a probe) must be equal."),
"M01": ("structured fuzzing (mutated MIME mails and arbitrary text) with a no-exception oracle",
        "Parsing, matching, every report and the adjusted message must not raise, for text that is damaged, hostile or arbitrary."),
"M02": ("property-based testing, metamorphic over line breaks",
        "The three renderings of one mail must give the same observables."),
"M03": ("stateful property-based testing, differential against a fresh process",
        "A sequence of mails scanned by one ruleset; each result must be that of the mail alone, and the options and rules must not change."),
"M04": ("property-based testing against a reference model (address sets)",
        "Addresses are generated as structures, rendered into the headers and derived by the model in the documented precedence."),
"O01": ("property-based testing: round trip and invariants of the output",
        "The original text must be contained unchanged (attached, or as the body and headers of the output), and an independent MIME parser must find the report parts."),
"O02": ("property-based testing against a reference model (list of headers)",
        "A fold over the header lines gives the list of X-Spam headers expected for the verdict."),
"O03": ("property-based testing against a reference model (template expansion)",
        "Templates are generated as token lists; the expansion follows from the matched rules, the score and the relays."),
"N01": ("property-based testing against integer arithmetic, boundary values",
        "Networks are intervals of integers in the oracle; the addresses probed are the first and last of each network and their neighbours."),
"N02": ("property-based testing against a fold over the relay path",
        "Relays are generated with their place (trusted, internal, MSA, authenticated) known; lists, marks, tags and the rules over them must be those of the fold."),
"N03": ("property-based testing: round trip (render a relay, parse it)",
        "Relays are generated as eight fields, rendered by one of the templates of the known MTAs and must come back as generated."),
"N04": ("property-based testing with injected faults against a model of the resolver policy",
        "A stand-in resolver records the queries and answers or fails in every way; restricted, unavailable and failed lookups must give an empty answer, the others the records."),
"N05": ("property-based testing against a reference model with a recording resolver",
        "The names queried and the rules matched must be those computed from the relays planted and the answers of the table."),
"D01": ("property-based testing, differential between daemon, command line and direct scan",
        "Each protocol command through the real request handler and the command line's main() must give the bytes that follow from a direct scan by a separately loaded ruleset."),
"D02": ("property-based testing over framings, differential against a direct scan",
        "The bytes of a request arrive in generated fragments through a buffered reader; the message scanned must be the one sent, whatever lengths, compression, surplus bytes or fragmentation."),
"D03": ("stateful fuzzing of the request handler with a probe request as the oracle",
        "After every malformed request a well-formed probe must get the same reply as before; a malformed one gets an error reply (or none, if the client left) and no exception."),
"D04": ("stateful property-based testing against a model, recording plugins",
        "The calls of the report and revoke hooks and the reply lines must follow from the headers of the request."),
"D05": ("stateful property-based testing against direct scans",
        "Histories of requests, preference changes and reloads; each reply must be that of the files that count for the user at that point."),
"D06": ("schedule exploration (generated thread schedules) and runs of the real daemon process, history oracle",
        "Threads are switched at generated points (reads, lines parsed, hooks) by a turn-taking scheduler; a reply must be that of a version allowed by the history. The second facet runs bin-like daemon processes with preforked workers, signals and open connections."),
"D07": ("property-based testing, differential against direct scans",
        "main() over generated files, directories and standard input; the output is the concatenation of the single results."),
"G01": ("stateful property-based testing against a reference model",
        "The model stops at the first matching rule with a live shortcircuit line and adds the scores; a recording of evaluated rules shows whether the scan stopped."),
"G02": ("property-based testing, differential against expanded configurations",
        "The oracle expands the patterns itself, and a configuration without the plugin must match the same mails."),
"G03": ("property-based testing against a reference model (glob and list semantics)",
        "Globs are matched by a separate matcher over addresses derived from, or one edit away from, the entries."),
"G04": ("property-based testing against a reference model (conjunction per URI)",
        "Links are generated as structures; a rule must match iff one of them satisfies all of its conditions."),
"G05": ("property-based testing against reference implementations, boundary values",
        "Each measure is computed independently; the arguments of the rules are put on the value and on its neighbours, so that an error of one unit shows."),
"G06": ("property-based testing: generated attachments with known counts, boundary values",
        "Attachments are built byte by byte by the harness, so the dimensions, names, digests and metadata are known."),
"G07": ("property-based testing against a reference model",
        "Addresses are generated as members, near misses and exempted ones of the configured domains; the limits are put on the true counts."),
"G08": ("property-based testing against a reference model over planted relays",
        "Relay data are planted through Received headers; each rule is computed by the model from the planted data."),
"G09": ("property-based testing with injected DNS faults against a model",
        "Records of a stand-in resolver define the evaluated result, headers the asserted ones; precedence, identities and whitelists follow the documentation."),
"G10": ("stateful / model-based property-based testing of the token database",
        "A dictionary model of the counters is compared with the database after every operation; the score is compared with an independent implementation of the chi-square combination."),
"G11": ("property-based testing against a decision model",
        "The points are computed from the rules planted and their flags; what is learned must follow from the documented requirements."),
"G12": ("stateful / model-based property-based testing on a database shared by processes",
        "A dictionary model of (address, network, signer) → (count, total) gives the adjusted score after every message."),
"G13": ("property-based testing with injected faults (services) against a model",
        "Stand-ins for Pyzor, Razor, SMTP and MX lookups record the contacts and fail in every way; contacts and results must follow the switches."),
"G14": ("property-based testing against a model of the signature outcome",
        "Mails are signed by the harness with its own keys, altered and published (or not) by a stand-in resolver: whether a signature is valid is known by construction."),
"G15": ("property-based testing against the published charset table",
        "Frozen table of charsets and locales (data/); spellings and near misses."),
"G16": ("stateful / model-based property-based testing of the registry",
        "A reference registry is compared after every step of loading, replacing and unloading generated modules, and a second context must not change."),
"G17": ("property-based testing against a model of the file order",
        "Directory trees are generated; the documented order gives the file list and thus the winning definitions."),
"G18": ("property-based testing against longest-match lookup in generated databases",
        "The harness writes the binary country databases, so the country of each address is known; addresses at the edges of the networks are probed."),
"G19": ("property-based testing against a decision model",
        "The detector's probabilities are generated by a stand-in (the last facet uses the real one); the decision follows the documentation."),
"G20": ("stateful / model-based property-based testing of the hook calls",
        "Recording plugins; the list of calls and what is visible in them must be that of the model, however the other plugins inhibit it."),
}
