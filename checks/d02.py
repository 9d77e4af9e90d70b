"""D02: the daemon scans exactly the message sent, however it is delivered."""
import zlib
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from checks.d01 import split, norm, verdict

PROPERTY = "D02"
RULE = ("cases are generated messages as bytes (ASCII, multi-byte characters, invalid UTF-8, CRLF, lengths around multiples of the daemon's 8192 byte read size and beyond), a request with or without Content-length (exact, too short: cut anywhere (also to nothing and around the read size), too long), zlib compression, header order and letter case, surplus bytes after the message, and a list of fragment sizes in which the bytes arrive; PROCESS, SYMBOLS and CHECK replies are compared with scanning the decoded bytes directly; "
        "non-trivial = the message has a non-ASCII byte and is delivered in more than one fragment, or exceeds the read size, or is cut or compressed")
ASSUMPTIONS = ["bytes that are not UTF-8 are dropped, as the command line does", "the bytes arrive through a buffered reader over a stand-in socket with the generated fragment sizes"]
PIECES = [b"tokalpha ", b"tokbravo\n", b"text line\n", b"line\r\n", "caf\u00e9 ".encode(), "\u20ac\u20ac".encode(), "\U0001f600".encode(), b"\xff", b"\xc3", b"\xe2\x82", b"\x80", b"\n", b"a", b"\x00", b" "]
piece = st.tuples(st.sampled_from(range(len(PIECES))), st.sampled_from([1, 1, 1, 2, 3, 7])).map(list)
case_st = st.fixed_dictionaries(dict(
    head=st.sampled_from(["Subject: tokalpha\nX-Probe: a\n\n", "Subject: caf\u00e9\n\n", "\n", "From: a@example.com\nTo: b@example.com\n\n"]), pieces=st.lists(piece, max_size=12),
    fill=st.one_of(st.just([0, 0, 0]), st.tuples(st.sampled_from([1, 1, 2, 3]), st.integers(-6, 6), st.integers(0, 2)).map(list)), tail=st.lists(piece, max_size=4),
    length=st.sampled_from(["none", "exact", "exact", "short", "long"]), cut=st.integers(1, 40), keep=st.sampled_from([None, None, None, None, 0, 1, 8191, 8192, 8193, 16384]), zlib=st.booleans(), surplus=st.booleans(), command=st.sampled_from(["PROCESS", "PROCESS", "SYMBOLS", "CHECK"]),
    sizes=st.lists(st.one_of(st.integers(1, 5), st.sampled_from([64, 1000, 4095, 8191, 8192, 8193, 20000])), max_size=4), names=st.sampled_from(["Content-length", "Content-Length", "CONTENT-LENGTH", "content-length"]), cname=st.sampled_from(["Compress", "compress", "COMPRESS"]),
    order=st.integers(0, 5), user=st.booleans(), space=st.sampled_from([" ", "", "  "])))
CONF = "body B_A /tokalpha/\nscore B_A 1.5\nbody B_B /tokbravo/\nscore B_B 2\nfull F_E /\u00e9/\nfull F_EURO /\u20ac{2}/\nheader H_S Subject =~ /tok/\nadd_header all Tests _TESTS_\nfull F_END /tokend/\nrequired_score 50\n".encode("utf-8").decode("latin-1")


def message(case):
    head = case["head"].encode("utf-8")
    pieces = b"".join(PIECES[i] * n for i, n in case["pieces"])
    tail = b"".join(PIECES[i] * n for i, n in case["tail"])
    n, d, unit = case["fill"]
    fill = b""
    if n:
        # the character after the filler straddles a multiple of the read size
        unit = [b"x", "\u00e9".encode(), b"word "][unit]
        size = max(0, 8192 * n + d - len(head) - len(pieces))
        fill = (unit * (size // len(unit)) + b"y" * (size % len(unit))) + "\u20ac\u00e9\U0001f600".encode()
    return head + pieces + fill + tail + b" tokend\n"


def body(case, w, note):
    data = message(case)
    kind, compress = case["length"], case["zlib"]
    scanned = data
    sent = zlib.compress(data) if compress else data
    length = len(sent)
    if kind == "short" and not compress:
        cut = min(case["cut"], len(data) - 1)
        length = len(data) - cut if case["keep"] is None else min(case["keep"], len(data) - 1)
        scanned = data[:length]
    elif kind == "long":
        length += case["cut"]
    elif case["surplus"] and kind == "exact":
        sent += b" tokbravo surplus\n"
    headers = []
    if kind != "none":
        headers.append("%s:%s%d" % (case["names"], case["space"], length))
    if compress:
        headers.append("%s:%szlib" % (case["cname"], case["space"]))
    if case["user"]:
        headers.append("User: nobody")
    if case["order"] % 2:
        headers.reverse()
    if case["order"] > 3 and len(headers) > 2:
        headers = headers[1:] + headers[:1]
    files = [["a.cf", CONF]]
    text = scanned.decode("utf-8", "ignore")
    res = w.call("core.scan", dict(files=files, msgs=[text], want=["adjusted"]))
    out = res["results"][0]
    check(res["load_exc"] is None and "exc" not in out, "direct scan failed", res=res)
    req = ("%s SPAMC/1.2\r\n%s\r\n" % (case["command"], "".join(h + "\r\n" for h in headers))).encode() + sent
    r = w.call("daemon.session", dict(files=files, requests=[dict(data=req.decode("latin-1"), sizes=case["sizes"])]))["replies"][0]
    check(r["exc"] is None, "exception in the handler", exc=r["exc"], tb=r["tb"], headers=headers)
    status, spam, n, got = split(r["reply"])
    check(status.endswith(" 0 EX_OK"), "status line", reply=r["reply"][:300], headers=headers)
    check_eq(spam, verdict(out, res["required_score"]), "Spam line", headers=headers)
    exp = {"PROCESS": out["adjusted"], "SYMBOLS": ",".join(out["tests"]), "CHECK": ""}[case["command"]]
    exp = exp.encode("utf-8")
    if got != exp:
        i = next((k for k, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
        check(False, "the reply differs from scanning the bytes sent", at=i, got=got[max(0, i - 40):i + 40], expected=exp[max(0, i - 40):i + 40], lengths=(len(got), len(exp)), headers=headers)
    check_eq(n, len(got), "Content-length of the reply")
    note.nontrivial((any(b > 127 for b in data) and len(case["sizes"]) > 0) or len(data) > 8192 or kind == "short" or compress)
    note.event("length " + kind, "zlib" if compress else "plain", "over one read" if len(data) > 8192 else "small")


FACETS = [Facet("framing", case_st, body, quick=1200)]
