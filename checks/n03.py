"""N03: Received headers of known MTAs are parsed to their fields."""
import ipaddress
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "N03"
RULE = ("cases are generated stacks of Received headers instantiated from templates of the MTAs the parser knows (and of local handovers to be skipped) with generated host names, IPv4/IPv6 addresses in every notation, ids, identities and envelope senders, folded arbitrarily; all eight fields of every relay, and their order, are compared with what was put in; "
        "non-trivial = at least two relays of different templates, or a relay next to a skipped header")
ASSUMPTIONS = ["host names hold no brackets, `@` or spaces; the only addresses left of ` by ` are the relay's", "of an envelope sender written with `=` (VERP) the part after the last `=` counts, as the stable tests have it"]
# name: (template, fields that are not simply those put in)
T = {
    "postfix": ("{helo} ({rdns} [{bip}]) by {by} (Postfix) with ESMTP id {id} for <u@example.org>", {}),
    "postfix-unknown": ("{helo} (unknown [{bip}]) by {by} (Postfix) with ESMTP id {id}", {}),
    "postfix-tls": ("{helo} ({rdns} [{bip}]) (using TLSv1.2 with cipher ECDHE (256/256 bits)) (No client certificate requested) by {by} (Postfix) with ESMTPS id {id} for <u@example.org>", {}),
    "postfix-sasl": ("{helo} ({rdns} [{bip}]) (Authenticated sender: {word}) by {by} (Postfix) with ESMTP id {id}", {"auth": "Postfix"}),
    "postfix-esmtpsa": ("{helo} ({rdns} [{bip}]) (Authenticated sender: {word}) by {by} (Postfix) with ESMTPSA id {id}", {"auth": "ESMTPSA"}),
    "postfix-esmtpa": ("{helo} ({rdns} [{bip}]) by {by} (Postfix) with ESMTPA id {id}", {"auth": "ESMTPA"}),
    "sendmail": ("{helo} ({rdns} [{ip}]) by {by} (8.12.10/8.12.9) with ESMTP id {id} for <u@example.org>", {}),
    "sendmail-auth": ("{helo} ({rdns} [{bip}]) (authenticated bits=0) by {by} (8.12.10/8.12.9) with ESMTP id {id}", {"auth": "Sendmail"}),
    "sendmail-forged": ("{helo} ({rdns} [{ip}] (may be forged)) by {by} (8.12.10/8.12.9) with ESMTP id {id}", {}),
    "sendmail-nordns": ("{helo} ([{bip}]) by {by} (8.12.10/8.12.9) with ESMTP id {id}", {}),
    "exim": ("{rdns} ([{ip}] helo={helo}) by {by} with esmtps (TLSv1:DHE-RSA-AES256-SHA:256) (Exim 4.85) (envelope-from <{env}>) id {id} for u@example.com", {}),
    "exim-sender": ("{rdns} ([{ip}] helo={helo}) by {by} with esmtps (X) (Exim 4.85) (envelope-sender <{env}>) id {id}", {}),
    "exim-auth": ("{rdns} ([{ip}] helo={helo}) by {by} with esmtpsa (TLSv1) (Exim 4.85) (envelope-from <{env}>) id {id}", {"auth": "esmtpsa"}),
    "exim-same": ("{rdns} ([{ip}]) by {by} with esmtps (TLSv1.2:X:256) (Exim 4.85) (envelope-from <{env}>) id {id} for u@example.org", {"helo": "{rdns}"}),
    "exim-helo": ("[{ip}] (helo={helo}) by {by} with esmtp (Exim 4.85) (envelope-from <{env}>) id {id}", {}),
    "exim-ident": ("[{ip}] (ident={ident}) by {by} with esmtp (Exim 4.85) (envelope-from <{env}>) id {id}", {}),
    "exim-ip": ("[{ip}] by {by} with esmtp (Exim 4.85) (envelope-from <>) id {id}", {}),
    "qmail": ("{rdns} (HELO {helo}) ({ip}) by {by} with SMTP", {}),
    "qmail-ident": ("{rdns} (HELO {helo}) ({ident}@{ip}) by {by} with SMTP", {}),
    "qmail-brackets": ("unknown (HELO {helo}) ([{ip}]) by {by} with SMTP", {}),
    "qmail-unknown": ("unknown (HELO {helo}) ({ip}) by {by} with SMTP", {}),
    "exchange": ("{helo} ({ip}) by {by} (172.17.210.2) with Microsoft SMTP Server (TLS) id {id} via Mailbox Transport", {"rdns": "{helo}"}),
    "exchange-svc": ("{helo} ([{ip}]) by {by} with Microsoft SMTPSVC(5.0.2195.5329)", {}),
    "google": ("{helo} ({rdns}. [{ip}]) by mx.google.com with ESMTPS id {id} for <t@example.com> (version=TLS1_2 cipher=ECDHE-RSA bits=128/128)", {"rdns": "{rdns}.", "by": "mx.google.com", "auth": "GMail - transport=TLS1_2 cipher=ECDHE-RSA bits=128/128"}),
    "google-auth": ("{helo} ({rdns}. [{ip}]) by mx.google.com with ESMTPSA id {id} for <t@example.com> (version=TLS1_2 cipher=ECDHE-RSA bits=128/128)", {"rdns": "{rdns}.", "by": "mx.google.com", "auth": "ESMTPSA"}),
    "communigate": ("{helo} ([{ip}] verified) by {by} (CommuniGate Pro SMTP 4.1.8) with ESMTP id {id} for u@example.org", {"rdns": "{helo}"}),
    "communigate-auth": ("[{ip}] (account {word} HELO {helo}) by {by} (CommuniGate Pro SMTP 4.2b6) with ESMTP id {id}", {"auth": "Communigate"}),
    "sophos": ("{helo} ({rdns} [{ip}]) by {by} (Sophos PureMessage) with ESMTP id {id}", {}),
    "criticalpath": ("[{ip}] ({ip}) by {by} (8.7.004.06) (authenticated as {word}) id {id}", {"helo": "[{ip}]", "auth": "CriticalPath"}),
    "amavis": ("{helo} ([{bip}]) by {by} ({by} [127.0.0.1]) (amavisd-new, port 10024) with ESMTP id {id} for <u@example.org>", {}),
    "gmx": ("{rdns} (EHLO {helo}) [{ip}] by mail.gmx.net (mp010) with SMTP", {"by": "mail.gmx.net", "auth": "GMX (SMTP / mail.gmx.net)"}),
    "lmtpa": ("{helo} ({rdns} [{ip}]) by {by} with LMTPA", {"auth": "LMTPA"}),
    "scalix": ("{helo} ({ip}) by {by} (Scalix SMTP Relay 11.0) via ESMTP", {}),
    "webmail": ("{ip} by {by} with HTTP", {"auth": "HTTP"}),
    "webmail-via": ("[{ip}] by {by} via HTTP", {}),
    "anonymous": ("([{ip}]) by {by} with ESMTP id {id}", {}),
}
SKIP = ["root by {by} with local-example (Exim 4.80) id {id} for u@example.com", "{helo} [{ip}] by localhost with IMAP (fetchmail-5.9.0) for jm@localhost (single-drop)", "{helo} by {by} with BSMTP (rsmtp-qm-ot 0.4) for u@ietf.example", "{helo} ({rdns}) by {by} (Content Technologies SMTPRS 4.2.1) with ESMTP id <{id}@x>",
        "{helo} ({word}@localhost) by {by} (SGI-8.9.3/8.8.7) with ESMTP id {id}", "127.0.0.1 (AVG SMTP 9.0.935 [4365.1.1/10645])", "{word}@{helo} by {by} by uid 7791 with qmail-scanner-1.14 (x)", "{word}@{helo} by {by} (mail_out_v34.13.) id {id} (4394)", "Unknown/Local ([?.?.?.?]) by {by}", "(AUTH: {id}) by {by} with esmtp (courier-0.40)",
        "localhost (localhost [[UNIX: localhost]]) by {by} (8.12.11/8.12.11/Submit) id {id}", "a.amazon.com by b.amazon.com with ESMTP (peer crosscheck: a.amazon.com)", "GWGC6-MTA by {by} with Novell_GroupWise", "no.name.available by [{ip}] via smtpd (for {helo} [66.35.250.206]) with ESMTP", "mail pickup service by {by} with Microsoft SMTPSVC"]
label = st.sampled_from(["mail", "mx1", "a", "example", "relay-7", "unknown-host", "id", "by", "with", "helo", "smtp", "x_y", "1-2-3-4", "localhost", "madrid", "fromid", "Postfix", "google"])
host = st.lists(label, min_size=1, max_size=3).flatmap(lambda l: st.sampled_from([".com", ".example.net", ".co.uk", ".madrid", ".ORG"]).map(lambda t: ".".join(l) + t))
v4 = st.one_of(st.tuples(*[st.integers(0, 255)] * 4), st.sampled_from([(10, 0, 0, 1), (172, 16, 5, 4), (172, 31, 255, 255), (172, 32, 0, 1), (192, 168, 2, 30), (127, 0, 0, 1), (100, 64, 0, 1), (169, 254, 1, 1), (8, 8, 8, 8)])).map(lambda t: "%d.%d.%d.%d" % t)
v6n = st.lists(st.sampled_from([0, 0, 0, 1, 0xdb8, 0x2001, 0xfe80, 0xffff, 0xa00d, 0x12]), min_size=8, max_size=8).map(lambda g: sum(x << (112 - 16 * i) for i, x in enumerate(g)))
ip = st.one_of(v4, v4, st.tuples(v6n, st.booleans(), st.booleans()).map(lambda t: (ipaddress.IPv6Address(t[0]).exploded if t[1] else str(ipaddress.IPv6Address(t[0]))).upper() if t[2] else str(ipaddress.IPv6Address(t[0]))), v4.map(lambda a: "::ffff:" + a))
ident_st = st.sampled_from(["0A1B2C", "1aVFVG-0000me-LC", "o6PCS1im002238", "x.y.z", "15.0.1104.5", "by", "ld8si17897891wjc.77", "A+b=c"])
fields = st.fixed_dictionaries(dict(helo=host, rdns=host, by=host, ip=ip, id=ident_st, ident=st.sampled_from(["joe", "mail", "www-data", "u1"]), env=st.tuples(st.sampled_from(["joe", "a.b+c", "x-y_z", "b-1=user", "prvs=12=joe"]), host).map("@".join), word=st.sampled_from(["fax", "joe.doe", "x1"]), prefix=st.booleans(), tail=st.sampled_from(["; Mon, 1 Feb 2016 10:00:00 +0000", ";\n\tMon, 29 Feb 2016 14:08:30 +0100 (CET)", "; Tue"])))
header = st.tuples(st.sampled_from(sorted(T)) | st.integers(0, len(SKIP) - 1), fields, st.lists(st.integers(0, 12), max_size=3)).map(list)
case_st = st.fixed_dictionaries(dict(headers=st.lists(header, min_size=1, max_size=5), via=st.sampled_from(["parser", "parser", "message"])))


def norm(addr):
    a = addr.lower()
    return a[7:] if a.startswith("::ffff:") and "." in a else a


def body(case, w, note):
    lines, exp, kinds = [], [], set()
    for name, f, folds in case["headers"]:
        vals = dict(f, bip="IPv6:" + f["ip"] if f["prefix"] and ":" in f["ip"] and not f["ip"].lower().startswith("::ffff:") else f["ip"])
        tpl, special = (SKIP[name], None) if isinstance(name, int) else T[name]
        words = ("from " + tpl.format(**vals)).split(" ")
        for i in folds:
            if 0 < i < len(words):
                words[i] = "\n\t" + words[i]
        lines.append(" ".join(words).replace(" \n", "\n") + f["tail"])
        kinds.add(name)
        if special is None:
            continue
        e = dict((k, vals[k] if "{%s}" % k in tpl or (k == "ip" and "{bip}" in tpl) else "") for k in ("helo", "rdns", "by", "ip", "id", "ident"))
        e["envfrom"] = f["env"].rsplit("=", 1)[-1] if "{env}" in tpl else ""
        e["auth"] = ""
        for k, v in special.items():
            e[k] = v.format(**vals)
        e["ip"] = norm(e["ip"])
        exp.append(e)
    if case["via"] == "parser":
        got = w.call("net.received", lines)
    else:
        raw = "".join("Received: %s\n" % l for l in lines) + "From: a@example.com\n\nbody\n"
        res = w.call("core.scan", dict(files=[["a.cf", "\n"]], msgs=[raw], want=["relays"]))
        check(res["load_exc"] is None and "exc" not in res["results"][0], "failed", res=res)
        got = [dict((k, r[k]) for k in ("helo", "rdns", "by", "ip", "id", "ident", "envfrom", "auth")) for r in res["results"][0]["received"]]
    check_eq(len(got), len(exp), "number of relays", headers=lines, got=got)
    for i, (g, e) in enumerate(zip(got, exp)):
        check_eq(g, e, "relay %d" % i, headers=lines)
    note.nontrivial(len(kinds) > 1 and len(exp) >= 1)
    note.event(*[("skip%d" % k if isinstance(k, int) else k) for k in kinds])


FACETS = [Facet("templates", case_st, body, quick=4000)]
