"""Build MIME messages as text, from JSON-able descriptions."""
import base64
import re

CTES = ["7bit", "8bit", "quoted-printable", "base64"]
CTE_SPELL = {"7bit": [None, "7bit", "7BIT"], "8bit": ["8bit", "8Bit"], "quoted-printable": ["quoted-printable", "Quoted-Printable", "QUOTED-PRINTABLE"],
             "base64": ["base64", "Base64", "BASE64"]}


def qp(data, width=60, hexall=False):
    """Quoted-printable of bytes; lines end in LF and are softly broken at width."""
    out = []
    for line in data.replace(b"\r\n", b"\n").split(b"\n"):
        cur, enc = "", []
        for i, b in enumerate(line):
            c = chr(b)
            if b == 61 or b > 126 or b < 32 or (c == " " and i == len(line) - 1) or (hexall and i % 5 == 0):
                c = "=%02X" % b
            if len(cur) + len(c) > width:
                enc.append(cur + "=")
                cur = ""
            cur += c
        enc.append(cur)
        out.append("\n".join(enc))
    return "\n".join(out)


def b64(data, width=76):
    s = base64.b64encode(data).decode("ascii")
    return "\n".join(s[i:i + width] for i in range(0, len(s), width))


def encode_body(text, charset, cte, crlf=False, width=60, junk=None, where=1):
    """text -> body as it appears in the (unicode) message source.

    junk: bytes that are not text in this charset, put on a line of their own before or after the text."""
    if cte in (None, "7bit", "8bit"):
        return text
    data = text.encode(charset)
    if cte == "base64" and crlf:
        data = text.replace("\n", "\r\n").encode(charset)
    if junk:
        data = junk + b"\n" + data if where == 1 else data + junk + b"\n"
    if cte == "base64":
        return b64(data, width)
    return qp(data, width)


_n = [0]


def boundary(path):
    return "=_b" + "_".join(str(p) for p in path) + "_x"


def render(node, path=(0,), top_headers=()):
    """node: {"ctype", "headers": [[n, v]], "children": [...]} or {"ctype", "headers", "body"}; returns source text."""
    lines = ["%s: %s" % (n, v) for n, v in top_headers]
    if "children" in node and node["ctype"].startswith("message/"):
        lines.append("Content-Type: %s" % node["ctype"])
        lines += ["%s: %s" % (n, v) for n, v in node.get("headers", ())]
        return "\n".join(lines) + "\n\n" + render(node["children"][0], path + (0,), node.get("inner_headers", ()))
    if "children" in node:
        b = boundary(path)
        lines.append('Content-Type: %s; boundary="%s"' % (node["ctype"], b))
        lines += ["%s: %s" % (n, v) for n, v in node.get("headers", ())]
        out = "\n".join(lines) + "\n\n" + node.get("preamble", "")
        for i, c in enumerate(node["children"]):
            out += "\n--%s\n%s" % (b, render(c, path + (i,)))
        return out + "\n--%s--\n%s" % (b, node.get("epilogue", ""))
    if node.get("ctype"):
        lines.append("Content-Type: %s" % node["ctype"])
    lines += ["%s: %s" % (n, v) for n, v in node.get("headers", ())]
    return "\n".join(lines) + "\n\n" + node["body"]


def rfc2047(word, charset="utf-8", enc="b"):
    data = word.encode(charset)
    if enc == "b":
        return "=?%s?b?%s?=" % (charset, base64.b64encode(data).decode("ascii"))
    return "=?%s?q?%s?=" % (charset, "".join(chr(b) if chr(b).isalnum() and b < 128 else ("_" if b == 32 else "=%02X" % b) for b in data))
