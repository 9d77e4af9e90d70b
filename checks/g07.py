"""G07: freemail rules recognise exactly the configured domains and exemptions."""
import re
from hypothesis import strategies as st
from checks.g05 import scan
from harness import mime
from harness.core import Facet, check

PROPERTY = "G07"
RULE = ("cases are generated freemail domains with wildcards, exempted addresses and domains, limits, and messages whose sender, reply and other headers and (possibly encoded) text and HTML parts hold generated addresses and near misses; every rule is compared with a model; "
        "non-trivial = at least one rule is expected to match and one not to")
ASSUMPTIONS = ["top level domains are configured", "regex arguments are valid expressions", "spellings of one body address that differ only in case are not mixed", "built-in exemptions are sampled by a fixed list of user names"]
USERS = ["joe", "ann", "Joe", "j.o+e", "x9", "a_b", "info", "support", "abuse", "postmaster", "bounce-", "a=b=c", "undisclosed.x", "informal", "mysales", "0123abcd.0123abcd"]
EXEMPT = ["info", "support", "abuse", "postmaster", "bounce-", "a=b=c", "undisclosed.x", "0123abcd.0123abcd"]
DOMAINS = ["free.com", "mail.free.com", "xfree.com", "free.org", "free.co.uk", "yahoo.com", "yahoo.co.uk", "my.yahoo.com", "hot1.com", "hot12.com", "hot.com", "FREE.com", "free.com.org", "mail.free.net", "paid.com", "hotx.sa.edu.au", "a.b.com"]
GLOBS = ["free.com", "*.free.com", "free.*", "yahoo.*", "yahoo.*.*", "hot?.com", "hot??.com", "hot*.com", "fre?.com", "free?com", "*", "*.com", "FREE.com", "Yahoo.*", "*free.com", "?.b.com", "hot?.sa.edu.au", "a?b.com", "free", "bad_domain.com", "joe@free.com", "(free.com", "*.??", "*.co.uk"]
WHITE = ["joe@free.com", "free.com", "yahoo.co.uk", "ann@yahoo.com", "JOE@FREE.COM", "Hot1.com", "*.free.com", "x9@hot1.com", "com", "ree.com"]
NEAR = ["joe@free.co.xuk", "joe@free", "joe@free.comx", "joe@free.com.xyz", "joe@free.com-x", "joe(at)free.com", "free.com", "joe@free.coxuk", "joe@-free.com", "@free.com"]
TLDS = ["com", ".net", "org"]
RXS = ["\\d@", "^joe", "free", "@yahoo\\.", "[.]org$"]
ADDRS = ["%s@%s" % (u, d) for u in USERS for d in DOMAINS]
SKIP = ["postmaster@free.com", "owner-list@free.com", "sentto-1@paid.com", "list-request@free.com", "noreply@paid.com", "joe=free.com@paid.com", "double-bounce@free.com", "ann-admin@free.com"]
plain_addr = st.tuples(st.sampled_from(USERS[:4] * 3 + USERS), st.sampled_from(DOMAINS + DOMAINS[:1] * 4)).map("@".join)
token = st.one_of(plain_addr, plain_addr, plain_addr, st.sampled_from(NEAR), st.sampled_from(["hello", "the", "mail"]))
WRAP = ["%s", "<%s>", "(%s)", "%s.", "%s,", "mailto:%s", "\"%s\""]
wrapped = st.tuples(token, st.sampled_from(WRAP)).map(list)
dom_st = st.lists(st.one_of(st.sampled_from(GLOBS[:6]), st.sampled_from(GLOBS)), max_size=5)
case_st = st.fixed_dictionaries(dict(
    domains=dom_st, white=st.lists(st.sampled_from(WHITE), max_size=3), emails=st.sampled_from([None, 1, 2, 3, 4, 6]), free=st.sampled_from([None, 1, 2, 4]), skip_max=st.sampled_from([None, 0, 1]), bulk=st.sampled_from([None, 0, 1]), describe=st.sampled_from([None, 0, 1]), frm=plain_addr, named=st.booleans(), reply=st.one_of(st.none(), plain_addr, st.just("same")), envelope=st.one_of(st.none(), plain_addr, st.sampled_from(SKIP), st.just("daemon")),
    other=st.lists(st.tuples(st.sampled_from(["Resent-From", "Resent-Sender", "EnvelopeFrom", "X-Envelope-From"]), plain_addr).map(list), max_size=2, unique_by=lambda t: t[0]), custom=st.lists(wrapped, max_size=3), body=st.lists(st.lists(wrapped, max_size=4), min_size=1, max_size=2), cte=st.sampled_from(["8bit", "base64", "quoted-printable"]), html=st.booleans(),
    rx=st.lists(st.sampled_from(RXS), min_size=4, max_size=4), one_conf=st.booleans()))


def free(case):
    def f(addr):
        if "@" not in addr:
            return False
        user, dom = addr.lower().rsplit("@", 1)
        white = [x.lower() for x in case["white"]]
        if addr.lower() in white or dom in white or user in EXEMPT:
            return False
        for g in case["domains"]:
            g = g.lower()
            if not re.match("[a-z0-9.*?-]+$", g):
                continue
            if re.match("".join({"*": "[^.]*", "?": "[^.]"}.get(c, re.escape(c)) for c in g) + "$", dom):
                return True
        return False
    return f


def found(tokens):
    return [t for t, _ in tokens if t in ADDRS]


def body(case, w, note):
    isfree = free(case)
    frm, reply = case["frm"], case["frm"] if case["reply"] == "same" else case["reply"]
    lines = ["loadplugin oa.plugins.free_mail.FreeMail", "util_rb_tld %s" % " ".join(TLDS), "util_rb_2tld co.uk", "util_rb_3tld sa.edu.au"]
    for opt, key in (("freemail_domains", "domains"), ("freemail_whitelist", "white")):
        if case[key]:
            lines += ["%s %s" % (opt, " ".join(case[key]))] if case["one_conf"] else ["%s %s" % (opt, x) for x in case[key]]
    limit = {}
    for opt, key, default in (("freemail_max_body_emails", "emails", 5), ("freemail_max_body_freemails", "free", 3), ("freemail_skip_when_over_max", "skip_max", 1), ("freemail_skip_bulk_envfrom", "bulk", 1), ("freemail_add_describe_email", "describe", 1)):
        limit[key] = default if case[key] is None else case[key]
        if case[key] is not None:
            lines.append("%s %s" % (opt, case[key]))
    head = ["From: %s" % ("Some One <%s>" % frm if case["named"] else frm), "To: rcpt@example.com", "Subject: hello there"]
    if reply:
        head.append("Reply-To: %s" % ("<%s>" % reply if case["named"] else reply))
    if case["envelope"]:
        head.append("Envelope-Sender: %s" % case["envelope"])
    head += ["%s: %s" % (h, a) for h, a in case["other"]]
    if case["custom"]:
        head.append("X-Custom: " + " ".join(x % a for a, x in case["custom"]))
    texts = ["some text " + " ".join(x % a for a, x in p) + " end\n" for p in case["body"]]
    leaves = []
    for i, t in enumerate(texts):
        html = case["html"] and i == 0
        if html:
            t = "<html><body><p>" + t.replace("<", "&lt; ").replace(">", " &gt;").rstrip("\n") + "</p></body></html>\n"
        leaves.append(dict(ctype="text/%s; charset=utf-8" % ("html" if html else "plain"), headers=[["Content-Transfer-Encoding", case["cte"]]], body=mime.encode_body(t, "utf-8", case["cte"], width=400)))
    node = leaves[0] if len(leaves) == 1 else dict(ctype="multipart/mixed", children=leaves)
    raw = "\n".join(head) + "\n" + mime.render(node, top_headers=[["MIME-Version", "1.0"]])
    want = {}

    def rule(fn, exp, *args):
        name = "R%d" % len(want)
        lines.append("header %s eval:%s(%s)" % (name, fn, ", ".join("'%s'" % a for a in args)))
        want[name] = (bool(exp), fn)
    envelope = dict([["Envelope-Sender", case["envelope"]]] + case["other"])
    sender = envelope.get("X-Envelope-From") or case["envelope"] or ""
    senders = {frm} | {a for h, a in envelope.items() if a and (h != "EnvelopeFrom" or not sender)} | ({sender} if sender else set())
    rule("check_freemail_from", any(map(isfree, senders)))
    rule("check_freemail_from", any(isfree(a) and re.search(case["rx"][0], a) for a in senders), case["rx"][0])
    custom = found(case["custom"])
    for h, l in (("From", [frm]), ("X-Custom", custom), ("Reply-To", [reply] if reply else []), ("X-Missing", [])):
        rule("check_freemail_header", any(map(isfree, l)), h)
        rule("check_freemail_header", any(isfree(a) and re.search(case["rx"][1], a) for a in l), h, case["rx"][1])
    addrs = sorted({a for p in case["body"] for a in found(p)})
    frees = [a for a in addrs if isfree(a)]
    usable = not (limit["skip_max"] and len(addrs) >= limit["emails"]) and len(frees) < limit["free"]
    rule("check_freemail_body", usable and frees)
    rule("check_freemail_body", usable and any(re.search(case["rx"][2], a) for a in frees), case["rx"][2])
    for opt in (None, "replyto", "reply"):
        if limit["bulk"] and sender in SKIP:
            exp = False
        elif limit["bulk"] and re.search("^(?:post|host|domain)master@|.=.", sender or ""):
            exp = False
        elif reply and isfree(frm) and isfree(reply) and frm.lower() != reply.lower():
            exp = True
        elif opt == "reply" and not reply:
            exp = isfree(frm) and usable and any(a.lower() != frm.lower() for a in frees)
        else:
            exp = reply and isfree(reply) and usable and any(a.lower() != reply.lower() for a in frees)
        rule("check_freemail_replyto", exp, *([opt] if opt else []))
    tests = set(scan(w, lines, raw)["tests"])
    for name, (exp, fn) in sorted(want.items()):
        note.event("%s %s" % (fn, "hit" if exp else "miss"))
        check((name in tests) == exp, "%s %s, expected %s" % ([l for l in lines if " %s " % name in l][0], "matched" if name in tests else "did not match", "a match" if exp else "none"), raw=raw, lines=lines)
    check(tests <= set(want), "unexpected matches", tests=sorted(tests))
    got = {e for e, _ in want.values()}
    note.nontrivial(len(got) == 2)


FACETS = [Facet("freemail", case_st, body, quick=600)]
