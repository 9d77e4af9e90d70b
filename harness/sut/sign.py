"""Messages signed with DKIM; the keys are published in the DNS stand-in."""
import dkim

from sut import core, net


def sign(msg, keys):
    raw = msg["text"]
    for s in reversed(msg["sigs"]):
        if "text" in s:
            header = s["text"]
        else:
            header = dkim.sign(msg["text"].encode("utf8"), s["selector"].encode(), s["domain"].encode(), keys[s["key"]]["pem"].encode(),
                               canonicalize=tuple(c.encode() for c in s["canon"]), include_headers=[h.encode() for h in s["headers"]]).decode("ascii").replace("\r\n", "\n")
        raw = header + raw
    for old, new in msg["edits"]:
        if raw.count(old) != 1:
            raise RuntimeError("cannot edit %r in %r" % (old, raw))
        raw = raw.replace(old, new)
    if msg["flip"]:
        i = raw.index(" b=") + 3
        while not raw[i].isalnum():
            i += 1
        raw = raw[:i] + ("A" if raw[i] != "A" else "B") + raw[i + 1:]
    return raw.replace("\n", "\r\n") if msg["crlf"] else raw


def scan(arg):
    net.Dns(arg["table"])
    ruleset = core.load(arg["files"])
    out = []
    for m in arg["msgs"]:
        raw = sign(m, arg["keys"])
        r = core.scan_message(ruleset, raw, ())
        r["raw"] = raw
        out.append(r)
    return out
