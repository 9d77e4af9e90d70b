"""S06: header rules."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import gen, mime

PROPERTY = "S06"
RULE = ("cases are header lists (repeated names in varying case, folded, RFC 2047 encoded, structured address lists) followed by a body and MIME parts that repeat the same words as header-like "
        "lines, and ~14 generated header rules over all selectors and both operators; non-trivial = at least two rules expected to match, one of them not a plain =~, and a repeated, folded or encoded header")
ASSUMPTIONS = ["text glued between a folded plain part and an encoded word is not judged", "a header mixing raw 8-bit text with encoded words is not generated"]

TOK = ["tok%02dz" % i for i in range(10)]
ADDRS = ["ann@example.com", "bob.b@sub.example.org", "carl+x@example.net", "DORA@Example.COM"]
DNAMES = ["Ann Tok", "Bob", "tok03z Person", "Carl C. Smith"]
QNAMES = ["Last, First", "Dr. (x) Who", "a@b.example"]
INTL = ["caf\u00e9q", "\u043f\u0440\u0438"]
TEXT_H = ["Subject", "X-One", "X-Two", "Message-Id", "Resent-Message-Id", "X-Message-Id", "X-Mailer", "Received"]
ADDR_H = ["From", "To", "Cc", "Reply-To", "X-Addr"]

case_of = st.sampled_from(["as", "upper", "lower", "swap"])


def recase(n, c):
    return {"as": n, "upper": n.upper(), "lower": n.lower(), "swap": n.swapcase()}[c]


piece = st.one_of(st.tuples(st.just("plain"), st.sampled_from(TOK)), st.tuples(st.just("plain"), st.sampled_from(TOK)),
                  st.tuples(st.sampled_from(["b", "q"]), st.sampled_from(TOK + INTL)), st.tuples(st.just("bad"), st.just("=?utf-8?b?abcde?=")),
                  st.tuples(st.just("unk"), st.just("=?x-unknown?q?zzz?="))).map(list)
addr = st.one_of(st.tuples(st.just("name"), st.sampled_from(DNAMES), st.sampled_from(ADDRS)), st.tuples(st.just("quoted"), st.sampled_from(DNAMES + QNAMES), st.sampled_from(ADDRS)),
                 st.tuples(st.just("bare"), st.just(""), st.sampled_from(ADDRS)), st.tuples(st.just("angle"), st.just(""), st.sampled_from(ADDRS)),
                 st.tuples(st.just("comment"), st.sampled_from(DNAMES), st.sampled_from(ADDRS)), st.tuples(st.just("enc"), st.sampled_from(INTL + DNAMES), st.sampled_from(ADDRS))).map(list)
header = st.one_of(
    st.fixed_dictionaries(dict(name=st.sampled_from(TEXT_H), case=case_of, pieces=st.lists(piece, min_size=1, max_size=4), seps=st.lists(st.sampled_from([" ", " ", "\n ", "\n\t"]), min_size=4, max_size=4), space=st.sampled_from([" ", "", "  "]))),
    st.fixed_dictionaries(dict(name=st.sampled_from(ADDR_H), case=case_of, addrs=st.lists(addr, min_size=1, max_size=3), sep=st.sampled_from([", ", ",\n ", ","]), space=st.sampled_from([" ", ""]))),
    st.fixed_dictionaries(dict(name=st.sampled_from(TEXT_H), case=case_of, raw=st.sampled_from(INTL), space=st.just(" "))))
SELS = TEXT_H + ADDR_H + ["ALL", "ToCc", "MESSAGEID", "X-Absent"]
rule = st.fixed_dictionaries(dict(sel=st.sampled_from(SELS), case=case_of, mod=st.sampled_from(["", "", "", "raw", "addr", "name"]), op=st.sampled_from(["=~", "=~", "=~", "!~"]),
                                  pat=st.sampled_from(["tok", "tok", "addr", "dname", "intl", "hname", "whole", "any", "empty"]), i=st.integers(0, 9), exists=st.integers(0, 6), sp=st.sampled_from([" ", "", "  "])))
case_st = st.fixed_dictionaries(dict(headers=st.lists(header, min_size=1, max_size=8), rules=st.lists(rule, min_size=14, max_size=14), body=st.booleans()))


def render_addr(a):
    k, n, m = a
    return {"name": "%s <%s>" % (n, m), "quoted": '"%s" <%s>' % (n, m), "bare": m, "angle": "<%s>" % m, "comment": "%s (%s)" % (m, n),
            "enc": "%s <%s>" % (mime.rfc2047(n), m)}[k]


def views(h):
    """(raw source value, decoded value or None when only words are known, words of the decoded value, addrs, names)"""
    if "raw" in h:
        return h["raw"], h["raw"]
    if "addrs" in h:
        raw = h["sep"].join(render_addr(a) for a in h["addrs"])
        enc = any(a[0] == "enc" for a in h["addrs"])
        if not enc:
            return raw, raw
        # decoded: encoded words replaced; folds next to them are not judged
        return raw, h["sep"].replace("\n", "").join(render_addr(["name", a[1], a[2]]) if a[0] == "enc" else render_addr(a) for a in h["addrs"])
    raw = ""
    dec = ""
    bad = any(p[0] == "bad" for p in h["pieces"])
    for i, (k, t) in enumerate(h["pieces"]):
        s = h["seps"][i % 4] if i else ""
        raw += s
        dec += s if i else ""
        raw += t if k in ("plain", "bad", "unk") else mime.rfc2047(t, "utf-8", k)
        dec += {"plain": t, "b": t, "q": t, "bad": t, "unk": ""}[k]
    if bad:
        dec = raw
    return raw, dec


def esc(s):
    out = ""
    for c in s:
        if c.isalnum() and ord(c) < 128:
            out += c
        elif ord(c) > 127:
            out += "\\u%04x" % ord(c)
        elif c in "\n\t":
            out += "\\s"
        elif c == "/":
            out += "\\/"
        elif c == "#":
            out += "."
        else:
            out += "\\" + c
    return out


def find(pat, s):
    kind, t = pat
    if kind == "sub":
        return t in s
    if kind == "icsub":
        return t.lower() in s.lower()
    if kind == "any":
        return bool(s)
    if kind == "empty":
        return True
    if kind == "whole":
        return s == t
    raise AssertionError(kind)


def body(case, w, note):
    hs = []
    for h in case["headers"]:
        raw, dec = views(h)
        hs.append(dict(name=recase(h["name"], h["case"]), low=h["name"].lower(), raw=raw, dec=dec, h=h))
    seen = {}
    for h in hs:
        seen.setdefault(h["low"], h["name"])
    top = [("MIME-Version", "1.0")]
    src = "\n".join("%s:%s%s" % (h["name"], h["h"]["space"], h["raw"]) for h in hs) + "\nMIME-Version: 1.0\n"
    if case["body"]:
        src += "Content-Type: multipart/mixed; boundary=bb\n\npre\n--bb\nContent-Type: text/plain\n"
        src += "".join("X-One: %s\nX-Absent: %s\nTo: z%s@example.com\n" % (t, t, t) for t in TOK[:3]) + "\nX-One: %s\nX-Absent: yes\nSubject: %s\n--bb--\n" % (TOK[4], TOK[5])
    else:
        src += "\n" + "".join("X-One: %s\nX-Absent: %s\nFrom: a <%s@example.com>\n" % (t, t, t) for t in TOK)
    extra = [("MIME-Version", "1.0", "1.0")] + ([("Content-Type", "multipart/mixed; boundary=bb", "multipart/mixed; boundary=bb")] if case["body"] else [])

    lines, exp = [], {}
    kinds = set()
    for n, r in enumerate(case["rules"]):
        name = "R%d" % n
        special = r["sel"] in ("ALL", "ToCc", "MESSAGEID")
        sel = r["sel"] if special else recase(r["sel"], r["case"])
        inst = [h for h in hs if h["low"] == r["sel"].lower()]
        if not special and r["exists"] == 0:
            lines.append("header %s exists:%s%s" % (name, r["sp"], sel))
            exp[name] = bool(inst)
            continue
        mod = "" if special else r["mod"]
        multi = False
        if r["sel"] == "ALL":
            vals = ["%s: %s" % (seen[h["low"]], h["dec"]) for h in hs] + ["%s: %s" % (a, c) for a, b, c in extra]
        elif r["sel"] == "ToCc":
            vals = [h["dec"] for h in hs if h["low"] in ("to", "cc")]
        elif r["sel"] == "MESSAGEID":
            vals = [h["dec"] for h in hs if h["low"] in ("message-id", "resent-message-id", "x-message-id")]
        elif mod == "raw":
            vals = [h["raw"] for h in inst]
        elif mod == "":
            vals = [h["dec"] for h in inst]
        else:
            if any("addrs" not in h["h"] for h in inst):
                continue
            vals = []
            for h in inst:
                if mod == "addr":
                    vals.append(h["h"]["addrs"][0][2])
                else:
                    nm = [a[1] for a in h["h"]["addrs"] if a[1]]
                    vals += nm[:1]
        flags = ""
        if r["pat"] == "tok":
            p = ("sub", TOK[r["i"]])
        elif r["pat"] == "addr":
            p = ("sub", ADDRS[r["i"] % 4])
        elif r["pat"] == "dname":
            p = ("sub", (DNAMES + QNAMES)[r["i"] % 7])
        elif r["pat"] == "intl":
            p = ("sub", INTL[r["i"] % 2])
        elif r["pat"] == "hname":
            p = ("sub", seen.get((TEXT_H + ADDR_H)[r["i"]].lower(), "X-No") + ":")
        elif r["pat"] == "any":
            p = ("any", "")
        elif r["pat"] == "empty":
            p = ("empty", "")
        else:
            cand = [v for v in vals if "\n" not in v]
            if not cand:
                continue
            p = ("whole", cand[r["i"] % len(cand)])
            if r["sel"] != "ALL" and any(h["h"].get("pieces") and len(h["h"]["pieces"]) > 1 for h in hs):
                p = ("sub", TOK[0])
        pat = {"sub": esc(p[1]), "any": ".", "empty": "x?", "whole": "^" + esc(p[1]) + "\\Z"}[p[0]]
        if p[0] == "whole" and any("\n" in v or "  " in v for v in vals):
            continue
        if r["sel"] == "ALL" and p[0] == "whole":
            continue
        if r["i"] % 4 == 0:
            # nothing but the first operator is one
            pat = "(?:%s|%s)" % (pat, "=~=~ !~" if r["sp"] else "!~=~ =~")
        lines.append("header %s %s%s%s%s%s/%s/" % (name, sel, ":" + mod if mod else "", r["sp"], r["op"], r["sp"], pat))
        res = [find(p, v) for v in vals]
        if p[0] == "any":
            if any(not v.strip() for v in vals):
                lines.pop()
                continue
        exp[name] = any(res) if r["op"] == "=~" else any(not x for x in res)
        if exp[name]:
            kinds.add((r["sel"] if special else mod, r["op"]))
    res = w.call("core.scan", dict(files=[["a.cf", "\n".join(lines) + "\n"]], msgs=[src], want=["evaluated"]))
    check(res["load_exc"] is None, "the configuration failed to load", exc=res["load_exc"], lines=lines)
    out = res["results"][0]
    check("exc" not in out, "scanning raised", msg=src, out=out)
    got = set(out["tests"])
    byname = dict((l.split()[1], l) for l in lines)
    diff = ["%s: %s" % ("should match" if e else "should not match", byname[n]) for n, e in sorted(exp.items()) if (n in got) != e]
    check(not diff, "; ".join(diff[:5]), message=src)
    tricky = len(set(h["low"] for h in hs)) < len(hs) or any("\n" in h["raw"] or "=?" in h["raw"] for h in hs)
    note.nontrivial(sum(exp.values()) >= 2 and any(k != ("", "=~") for k in kinds) and tricky)
    note.event(*["%s %s" % k for k in kinds])


FACETS = [Facet("rules", case_st, body, quick=2400)]
