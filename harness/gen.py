"""Shared generators (CPython side)."""
import base64
import quopri
import re
from hypothesis import strategies as st

WORDS = ["tokalpha", "tokbravo", "tokcharlie", "tokdelta", "tokecho", "tokfoxtrot", "tokgolf", "tokhotel"]
NAMES = ["R_ONE", "R_TWO", "R_THREE", "R_FOUR", "R_FIVE", "R_SIX", "R_SEVEN", "R_EIGHT", "R_NINE", "RX1", "RX10", "RX100"]


def quarter(lo=-40, hi=40):
    """Scores that add up exactly in binary floating point."""
    return st.integers(lo, hi).map(lambda n: n / 4.0)


def fmt(x):
    """A number as a user writes it."""
    if x == int(x):
        return "%d" % x
    return repr(x)


RULE_KINDS = ["body", "rawbody", "full", "uri", "header", "exists", "mimeheader", "rawheader", "all"]


def rule_line(kind, name, word):
    """A rule that matches probe_message(words) iff word is in words."""
    return {
        "body": "body %s /%s/" % (name, word),
        "rawbody": "rawbody %s /%s/" % (name, word),
        "full": "full %s /body %s/" % (name, word),
        "uri": "uri %s /%s\\.example/" % (name, word),
        "header": "header %s X-Probe =~ /^%s$/" % (name, word),
        "rawheader": "header %s X-Probe:raw =~ /%s/" % (name, word),
        "exists": "header %s exists:X-Has-%s" % (name, word),
        "mimeheader": "mimeheader %s X-Probe =~ /%s/" % (name, word),
        "all": "header %s ALL =~ /X-Probe: %s/" % (name, word),
    }[kind]


def probe_message(words, subject="plain subject", extra_headers=()):
    lines = ["From: sender@example.com", "To: rcpt@example.org", "Subject: %s" % subject]
    for w in words:
        lines.append("X-Probe: %s" % w)
        lines.append("X-Has-%s: yes" % w)
    lines.extend(extra_headers)
    lines.append("")
    lines.append("some text here")
    for w in words:
        lines.append("body %s line" % w)
        lines.append("see http://%s.example.net/x now" % w)
    return "\n".join(lines) + "\n"
