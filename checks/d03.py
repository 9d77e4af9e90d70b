"""D03: malformed requests get an error reply and never disturb later ones."""
import re
import zlib
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "D03"
RULE = ("cases are generated sequences of requests on one server: arbitrary bytes, mutated request lines, headers and lengths, truncated and corrupt messages, corrupt compression, all interleaved with a well-formed probe request whose reply is compared with the reply before the sequence; "
        "non-trivial = at least one request was refused with an error reply and one malformed request was still answered or had undecodable bytes")
ASSUMPTIONS = ["a request line is malformed unless it consists of two words the first of which is a command in any letter case", "a header line is malformed if it has no colon or is not UTF-8, or is a Content-length that is not a non-negative number", "a message that Message() cannot parse is M01's subject and not generated on purpose"]
LINES = ["CHECK SPAMC/1.2", "PROCESS SPAMC/1.2", "SYMBOLS SPAMC/1.3", "REPORT SPAMC/1.2", "REPORT_IFSPAM SPAMC/1.2", "HEADERS SPAMC/1.2", "TELL SPAMC/1.3", "PING SPAMC/1.2", "SKIP SPAMC/1.2", "", " ", "CHECK", "CHECK SPAMC/1.2 extra", "NOSUCH SPAMC/1.2", "check spamc/1.2", "  CHECK   SPAMC/1.2  ", "GET / HTTP/1.1", "CHECK\tSPAMC/1.2",
         "\x00\x01 \x02", "\xff\xfe SPAMC/1.2", "CHECK \xff", "CHECKS SPAMC/1.2", "PROCESS_ SPAMC/1.2", "REPORT IFSPAM SPAMC/1.2", "__class__ x", "CHECK SPAMC/1.2\x0bX", "\xc3\x84 SPAMC/1.2", "LEARN SPAMC/1.2"]
HEADERS = ["Content-length: %d", "Content-length: %d", "Content-length: -1", "Content-length: abc", "Content-length:", "Content-length: 1.5", "Content-length: 0", "Content-length: 99999999", "Content-length: 5", "Content-length: 0x10", "Content-length: 12 12", "User: nobody", "User:", "no colon here", ":", ": value", "X-\xff: y", "Compress: zlib", "Compress: gzip",
           "Message-class: ham", "Set: local", "Remove: local,remote", "Set:", "User: \xc3\xa9", "Name: " + "v" * 500, "User: ../../x", "Content-length: %d0", "\xff\xff"]
BODIES = ["Subject: x\n\ntokalpha text\n", "", "\n", "no header body", "\xff\xfe\x00", "Subject: \xff\n\n\xff\xff tokalpha\n", "Content-Type: multipart/mixed; boundary=\"b\"\n\n--b\n\nx\n", "Received: nonsense\nReceived: from [] by ; \n\n\n", "x" * 9000, "zlib", "Content-Type: text/plain; charset=nosuch\nContent-Transfer-Encoding: base64\n\n!!!!\n", "zlibcut"]
struct = st.fixed_dictionaries(dict(k=st.just("struct"), line=st.sampled_from(LINES), headers=st.lists(st.sampled_from(HEADERS), max_size=4), body=st.sampled_from(BODIES), eol=st.sampled_from(["\r\n", "\r\n", "\n"]), end=st.sampled_from([True, True, True, False]), cut=st.one_of(st.none(), st.integers(0, 60)),
                                    sizes=st.lists(st.integers(1, 50), max_size=2)))
raw = st.fixed_dictionaries(dict(k=st.just("raw"), data=st.one_of(st.binary(max_size=60).map(lambda b: b.decode("latin-1")), st.text(alphabet="CHEK PNG:/1.2\r\n-lentgh\xff", max_size=40)), sizes=st.lists(st.integers(1, 50), max_size=2)))
case_st = st.fixed_dictionaries(dict(requests=st.lists(st.one_of(struct, struct, struct, raw), min_size=1, max_size=6), probe=st.sampled_from(["PROCESS", "SYMBOLS", "CHECK", "REPORT"])))
CONF = "loadplugin oa.plugins.relay_eval.RelayEval\nallow_user_rules 0\nbody B_A /tokalpha/\nscore B_A 1.5\nheader H_S Subject =~ /x/\nheader H_N eval:check_no_relays()\nadd_header all Tests _TESTS_\nrequired_score 50\n"
COMMANDS = ["TELL", "PING", "SKIP", "CHECK", "SYMBOLS", "REPORT", "REPORT_IFSPAM", "PROCESS", "HEADERS"]
WITH_OPTIONS = [c for c in COMMANDS if c not in ("PING", "SKIP")]


def render(r):
    if r["k"] == "raw":
        return r["data"]
    text = r["body"]
    if text.startswith("zlib"):
        text = zlib.compress(b"Subject: x\n\ntokalpha compressed\n" * 20).decode("latin-1")
        if r["body"] == "zlibcut":
            text = text[:-9]
    out = r["line"] + r["eol"] + "".join((h % len(text) if "%d" in h else h) + r["eol"] for h in r["headers"])
    if r["end"]:
        out += r["eol"] + text
    return out if r["cut"] is None else out[:r["cut"]]


def expect(data):
    """'bad': must be refused; 'silent'; 'pong'; 'ok': must be answered; None: either an answer or an error reply."""
    b = data.encode("latin-1")
    first, _, rest = b.partition(b"\n")
    words = first.decode("utf-8", "replace").split()
    if len(words) != 2 or words[0].upper() not in COMMANDS:
        return "bad"
    cmd = words[0].upper()
    if cmd in ("PING", "SKIP"):
        return {"PING": "pong", "SKIP": "silent"}[cmd]
    length = None
    compress = False
    while True:
        line, _, rest = rest.partition(b"\n")
        try:
            text = line.decode("utf-8").strip()
        except UnicodeDecodeError:
            return "bad"
        if not text:
            break
        if ":" not in text:
            return "bad"
        n, v = text.split(":", 1)
        if n.lower() == "content-length":
            length = v.strip()
        if n.lower() == "compress":
            compress = v.strip() == "zlib"
    if length is not None:
        if not re.match(r"[0-9]+$", length):
            return "bad" if not re.match(r"[+0-9_\s]+$", length) or not length else None
    if compress:
        try:
            zlib.decompress(rest if length is None else rest[:int(length)])
        except zlib.error:
            return "bad"
    return "ok"


def body(case, w, note):
    msg = "Subject: x\n\ntokalpha caf\u00e9\n".encode("utf-8").decode("latin-1")
    probe = dict(data="%s SPAMC/1.2\r\nContent-length: %d\r\n\r\n%s" % (case["probe"], len(msg), msg))
    reqs, datas = [probe], [None]
    for r in case["requests"]:
        d = render(r)
        reqs += [dict(data=d, sizes=r["sizes"]), probe]
        datas += [d, None]
    got = w.call("daemon.session", dict(files=[["a.cf", CONF]], requests=reqs), cpu=20)["replies"]
    check(got[0]["exc"] is None and " 0 EX_OK\r\n" in got[0]["reply"], "the well-formed request fails", got=got[0])
    bad = odd = False
    for d, r in zip(datas, got):
        if d is None:
            check_eq(r["reply"], got[0]["reply"], "reply to the well-formed request after a malformed one", requests=[x for x in datas if x])
            continue
        check(r["exc"] is None, "exception in the handler", request=d, exc=r["exc"], tb=r["tb"])
        e = expect(d)
        reply = r["reply"]
        if e == "silent":
            check_eq(reply, "", "reply to SKIP", request=d)
        elif e == "pong":
            check(re.match(r"SPAMD/\S+ 0 PONG\r\n$", reply), "reply to PING", request=d, reply=reply)
        else:
            m = re.match(r"SPAMD/\S+ (\d+) ([^\r\n]*)", reply)
            check(m, "no SPAMD reply", request=d, reply=reply[:300])
            if e == "bad":
                check(m.group(1) == "76" and m.group(2).startswith("Bad header line"), "malformed request not refused", request=d, reply=reply[:300])
                check(reply.count("SPAMD/") >= 1 and "EX_OK" not in reply.split("Bad header line")[0] and "Spam: " not in reply.split("\r\n", 1)[-1], "error reply mixed with an answer", request=d, reply=reply[:300])
                bad = True
            elif e == "ok":
                check_eq(m.group(1), "0", "status of a request that is not malformed", request=d, reply=reply[:300])
                odd = True
        if any(ord(c) > 127 for c in d):
            odd = True
        note.event("expected " + str(e))
    note.nontrivial(bad and odd)


FACETS = [Facet("malformed", case_st, body, quick=1000)]
