"""Execute configurations and messages through the public API."""
import os
import random
import traceback

import oa.config
import oa.errors
import oa.message
import oa.rules.parser

from sut import fakes  # noqa: F401  (replaces external clients)


def exc(e):
    return "%s: %s" % (type(e).__name__, e)


def last_frames(n=6):
    return traceback.format_exc()[-2500:]


_n = [0]


def write_files(files):
    """files: [[relative name, text (latin-1 characters = bytes)], ...] in load order; names ending in '!' are written but not loaded."""
    _n[0] += 1
    base = os.path.join(os.getcwd(), "conf%d" % _n[0])
    os.makedirs(base)
    paths = []
    for name, text in files:
        load = not name.endswith("!")
        path = os.path.join(base, name.rstrip("!"))
        if not os.path.isdir(os.path.dirname(path)):
            os.makedirs(os.path.dirname(path))
        with open(path, "wb") as f:
            f.write(text.encode("latin-1"))
        if load:
            paths.append(path)
    return paths


def load(files, paranoid=False, ignore_unknown=True, lazy=True):
    oa.config.LAZY_MODE = lazy
    parser = oa.rules.parser.parse_pad_rules(write_files(files), paranoid, ignore_unknown)
    return parser.get_ruleset()


RELAY_KEYS = ("ip", "rdns", "helo", "by", "ident", "envfrom", "intl", "id", "auth", "msa")


def relays(lst):
    return [dict((k, (v if isinstance(v, (str, int, float, type(None), bool)) else str(v)))
                 for k, v in sorted(r.items())) for r in lst]


def scan_message(ruleset, raw, want):
    random.seed(777)
    out = {}
    try:
        msg = oa.message.Message(ruleset.ctxt, raw)
    except Exception as e:
        return {"exc": exc(e), "stage": "parse", "tb": last_frames()}
    try:
        ruleset.match(msg)
    except Exception as e:
        return {"exc": exc(e), "stage": "match", "tb": last_frames()}
    out["score"] = msg.score
    out["tests"] = [n for n, r in msg.rules_checked.items() if r]
    out["spam"] = bool(msg.score >= ruleset.conf["required_score"])
    try:
        if "evaluated" in want:
            out["evaluated"] = list(msg.rules_checked)
        if "report" in want:
            out["report"] = ruleset.get_report(msg)
        if "unsafe" in want:
            out["unsafe"] = ruleset.get_unsafe_report(msg)
        if "adjusted" in want:
            random.seed(777)
            out["adjusted"] = ruleset.get_adjusted_message(msg)
        if "headers" in want:
            random.seed(777)
            out["headers"] = ruleset.get_adjusted_message(msg, header_only=True)
        if "matched_report" in want:
            out["matched_report"] = ruleset.get_matched_report(msg)
    except Exception as e:
        return {"exc": exc(e), "stage": "report", "tb": last_frames(), "score": out["score"], "tests": out["tests"]}
    if "text" in want:
        out["text"] = msg.text
        out["raw_text"] = msg.raw_text
        out["uris"] = sorted(msg.uri_list)
        out["raw_msg"] = msg.raw_msg
    if "relays" in want:
        for k in ("trusted", "untrusted", "internal", "external"):
            out[k] = relays(getattr(msg, k + "_relays"))
        out["received"] = relays(msg.received_headers)
        out["sender"] = msg.sender_address
    if "from_to" in want:
        out["from"] = list(msg.get_from_addresses())
        out["to"] = list(msg.get_to_addresses())
        out["sender"] = msg.sender_address
    if "tags" in want:
        out["tags"] = dict((str(k), str(v)) for k, v in msg.plugin_tags.items())
    return out


def scan(arg):
    """Load one configuration, scan messages in sequence."""
    res = {"load_exc": None, "results": []}
    try:
        ruleset = load(arg["files"], arg.get("paranoid", False), arg.get("ignore_unknown", True), arg.get("lazy", True))
    except Exception as e:
        return {"load_exc": exc(e), "load_exc_parsing": isinstance(e, (oa.errors.ParsingError, oa.errors.MaxRecursionDepthExceeded)),
                "tb": last_frames(), "results": []}
    res["required_score"] = ruleset.conf["required_score"]
    if arg.get("rules"):
        res["checked"] = [[n, r.score, r.description, r.priority] for n, r in ruleset.checked.items()]
        res["not_checked"] = sorted(ruleset.not_checked)
    for raw in arg["msgs"]:
        res["results"].append(scan_message(ruleset, raw, arg.get("want", ())))
    return res
