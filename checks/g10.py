"""G10: Bayes learning is reversible bookkeeping and its score follows the counts."""
import hashlib
import math
import os
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

os.environ["VERIF_WARM"] = "sql"
PROPERTY = "G10"
RULE = ("cases are generated histories of learning as spam, learning as ham, forgetting and scanning over generated messages on a scratch SQLite database, compared after every operation with a counter model, and trained databases with scanned messages whose score is compared with an independent computation; "
        "non-trivial = a message is learned twice, relearned or forgotten, or a scanned message has significant tokens")
ASSUMPTIONS = ["messages of one history have different IDs", "the tables exist", "tokens of a message are those of the plugin's tokeniser; for plain words they are checked separately"]
WORDS = ["apple", "banana", "cherry", "dragon", "elephant", "falcon", "guitar", "harbor", "island", "jungle", "kitten", "lemonade", "mountain", "needle", "orchid", "pepper", "quartz", "rocket", "silver", "turtle"]
ODD = ["joe@shop.example", "www.pills.example", "a.b", "e.g.", "x@y", "a.b.c.d.e", "http://pay.example/x?y=1", "$31,000,000", "f*ck", "don't", "one...two", "one---two", "\xe9t\xe9", "\xa1\xa2\xa3\xa4\xa5\xa6\xa7\xa8\xa9\xaa\xab\xac\xad\xae\xaf\xb0\xb1", "\xa1" * 17, "averyveryverylongword", "UPPER", "Title", "..", "--", "@", "a@b@c.d", ".a", "1.2.3.4", "mailto:x@y.example", "\u4e2d\u6587.com", "x." * 40 + "com"]
message = st.fixed_dictionaries(dict(words=st.lists(st.sampled_from(WORDS), max_size=8), odd=st.lists(st.sampled_from(ODD), max_size=2), subject=st.one_of(st.none(), st.sampled_from(WORDS)), frm=st.sampled_from(["joe@strict.example", "Ann <ann@open.example>", None]), to=st.sampled_from(["me@home.example", "a@b.example, C <c@d.example>", None]), hid=st.sampled_from([True, True, False]), received=st.sampled_from([None, None, "from a.example ([192.0.2.7]) by b.example; Mon, 09 May 2016 14:00:25 +0200", "from a.example ([192.0.2.7]) by b.example; yesterday", "from a.example by b.example"]), html=st.booleans(), ct=st.sampled_from(["", "", '; x="boundary=\'--==a\'"'])))
OPS = ["spam", "spam", "ham", "ham", "forget", "scan"]
hist_st = st.fixed_dictionaries(dict(msgs=st.lists(message, min_size=1, max_size=4), ops=st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 3)).map(list), min_size=1, max_size=10), upfront=st.booleans(), mins=st.sampled_from([0, 0, 1])))


def raw(m, i):
    head = []
    if m["received"]:
        head.append("Received: " + m["received"])
    if m["frm"]:
        head.append("From: " + m["frm"])
    if m["to"]:
        head.append("To: " + m["to"])
    if m["subject"]:
        head.append("Subject: " + m["subject"])
    if m["hid"]:
        head.append("Message-ID: <m%d.unique@host.example>" % i)
    head.append("X-Number: number%d" % i)
    head += ["MIME-Version: 1.0", "Content-Type: text/%s; charset=utf-8%s" % ("html" if m["html"] else "plain", m["ct"]), "Content-Transfer-Encoding: 8bit"]
    return "\n".join(head) + "\n\n" + "mark%d " % i + " ".join(m["words"] + m["odd"]) + "\n"


def words_of(m, i):
    """Lower bound of the tokens: the plain words of a text/plain body."""
    out = set()
    if not m["html"]:
        out |= set(m["words"])
    if m["subject"]:
        out.add(m["subject"])
    return out


class Model(object):
    def __init__(self, tokens):
        self.tokens = tokens
        self.seen = {}
        self.counts = [0, 0]
        self.tok = {}

    def add(self, i, cls, sign):
        k = "sh".index(cls)
        self.counts[k] += sign
        for t in self.tokens[i]:
            c = self.tok.setdefault(t, [0, 0])
            c[k] += sign

    def forget(self, i):
        if i in self.seen:
            self.add(i, self.seen.pop(i), -1)

    def learn(self, i, cls):
        if self.seen.get(i) == cls:
            return
        self.forget(i)
        self.seen[i] = cls
        self.add(i, cls, 1)

    def state(self):
        return (self.counts, sorted([t, c[0], c[1]] for t, c in self.tok.items() if c[0] or c[1]))


def bookkeeping(case, w, note):
    n = len(case["msgs"])
    msgs = [raw(m, i) for i, m in enumerate(case["msgs"])]
    ops = [[o, i % n] for o, i in case["ops"]]
    mins = case["mins"]
    res = w.call("learn.bayes", dict(lines=["bayes_min_spam_num %d" % mins, "bayes_min_ham_num %d" % mins, "body BAYES_ANY eval:check_bayes('0.0', '1.0')"], msgs=msgs, ops=ops, upfront=case["upfront"]))
    for i, (m, toks) in enumerate(zip(case["msgs"], res["tokens"])):
        for h, t in toks:
            check_eq(h, hashlib.sha1(t.encode("utf8")).digest()[-5:].hex(), "hash of a token", token=t)
        check_eq(len(toks), len(set(t for _, t in toks)), "every token once", tokens=toks)
        have = set(t for _, t in toks)
        check(words_of(m, i) <= have, "the words of the text are tokens", message=msgs[i], tokens=sorted(have))
        check(not any(x in have for x in WORDS if x not in m["words"] and x != m["subject"]), "only words of the message are tokens", message=msgs[i], tokens=sorted(have))
        if m["frm"] and "joe" in m["frm"]:
            check(any(t[0] == "H" and t.endswith(":U*joe") for t in have) and any(t[0] == "H" and t.endswith(":D*strict.example") for t in have), "the sender is a token", message=msgs[i], tokens=sorted(have))
    model = Model([[h for h, _ in t] for t in res["tokens"]])
    for k, ((op, i), r) in enumerate(zip(ops, res["results"])):
        check("exc" not in r, "operation %s completes" % op, ops=ops[:k + 1], message=msgs[i], exc=r.get("exc"))
        before = model.seen.get(i)
        if op == "spam":
            model.learn(i, "s")
        elif op == "ham":
            model.learn(i, "h")
        elif op == "forget":
            model.forget(i)
        if before is not None and op != "scan":
            note.nontrivial("relearned or forgotten")
        counts, toks = model.state()
        info = dict(ops=ops[:k + 1], msgs=msgs, upfront=case["upfront"])
        check_eq(r["counts"], counts, "learned spam and ham messages", **info)
        check_eq([t for t in r["tokens"] if t[1] or t[2]], toks, "learned tokens", **info)
        check_eq(sorted(f for _, f in r["seen"]), sorted(model.seen.values()), "classes of the learned messages", **info)
        if op == "scan" and (not counts[0] or not counts[1]):
            check_eq(r["tests"], [], "nothing matches without both classes", **info)


BANDS = 3
LINES = ["body B%02d eval:check_bayes('%.2f', '%.2f')" % (i, i / BANDS, (i + 1) / BANDS) for i in range(BANDS)] + ["body TOP eval:check_bayes('0.8')", "body ALL eval:check_bayes('0.00', '1.00')"]
SETUPS = [([], True)] * 6 + [(["use_bayes 0"], False), (["use_learner 0"], False), (["use_bayes_rules 0"], False), (["bayes_ignore_from @strict\\.example"], "from"), (["bayes_ignore_to ^me@home\\.example$"], "to"), (["bayes_use_hapaxes 0"], "hapax")]
vocabulary = WORDS + ["word%s" % "".join(chr(97 + int(d)) for d in "%03d" % i) for i in range(400)]
small = st.lists(st.sampled_from(WORDS[:10]), min_size=1, max_size=8)
bag = small
span = st.tuples(st.integers(0, 120), st.integers(140, 180)).map(list)
score_st = st.fixed_dictionaries(dict(spam=st.lists(bag, min_size=1, max_size=5), ham=st.lists(bag, min_size=1, max_size=5), scan=st.lists(bag, min_size=1, max_size=3), setup=st.integers(0, len(SETUPS) - 1), mins=st.sampled_from([[0, 0], [0, 0], [1, 1], [3, 1], [1, 3], [4, 4]]), big=st.sampled_from([False] * 9 + [True]).flatmap(lambda b: st.tuples(span, span, span).map(list) if b else st.none())))


def chi2q(x2, halfv):
    m = x2 / 2.0
    total = term = math.exp(-m)
    for i in range(1, halfv):
        term *= m / i
        total += term
    return min(total, 1.0)


def probability(tokens, model, hapaxes):
    """The score of a message with these tokens; None = no score; also None, None when the choice of the 150 is ambiguous."""
    ns, nn = model.counts
    if not ns or not nn:
        return None, True
    probs = []
    for t in tokens:
        s, n = model.tok.get(t, (0, 0))
        if s + n < (1 if hapaxes else 2):
            continue
        p = (s / ns) / (s / ns + n / nn)
        probs.append((0.538 * 0.030 + (s + n) * p) / (0.030 + s + n))
    probs.sort(key=lambda p: -abs(p - 0.5))
    if len(probs) > 150 and abs(abs(probs[149] - 0.5) - abs(probs[150] - 0.5)) < 1e-12 and abs(probs[149] - .5) >= 0.346:
        last = abs(probs[149] - 0.5)
        if len(set(p > 0.5 for p in probs if abs(abs(p - 0.5) - last) < 1e-12)) > 1:
            return None, False
    probs = [p for p in probs[:150] if abs(p - 0.5) >= 0.346]
    if not probs:
        return None, True
    s = math.log(ns / (ns + nn)) + sum(math.log(1 - p) for p in probs)
    h = math.log(nn / (ns + nn)) + sum(math.log(p) for p in probs)
    return (chi2q(-2 * h, len(probs)) - chi2q(-2 * s, len(probs)) + 1) / 2.0, True


def text(b):
    return " ".join(b if not b or isinstance(b[0], str) else vocabulary[b[0]:b[0] + b[1]])


def score(case, w, note):
    extra, mode = SETUPS[case["setup"]]
    bodies = [("spam", b) for b in case["spam"]] + [("ham", b) for b in case["ham"]] + [("scan", b) for b in case["scan"]]
    if case["big"]:
        bodies += list(zip(("spam", "ham", "scan"), case["big"]))
    msgs = ["From: joe@strict.example\nTo: me@home.example\nMessage-ID: <n%d@x.example>\n\n%s\n" % (i, text(b)) for i, (_, b) in enumerate(bodies)]
    train = [["spam" if what == "spam" else "ham", i] for i, (what, _) in enumerate(bodies) if what != "scan"]
    scans = [i for i, (what, _) in enumerate(bodies) if what == "scan"]
    # learned with the switches on, scanned with them off
    res = w.call("learn.score", dict(lines=["bayes_min_spam_num %d" % case["mins"][0], "bayes_min_ham_num %d" % case["mins"][1]] + LINES, extra=extra, msgs=msgs, train=train, scan=scans))
    model = Model([[h for h, _ in t] for t in res["tokens"]])
    for what, i in train:
        model.learn(i, what[0])
    for i, r in zip(scans, res["results"]):
        check("exc" not in r, "scan completes", exc=r.get("exc"))
        want, sure = probability(model.tokens[i], model, mode != "hapax")
        if not sure:
            note.event("ambiguous choice of tokens")
            continue
        if mode in (False, "from", "to") or model.counts[0] < case["mins"][0] or model.counts[1] < case["mins"][1]:
            want = None
        info = dict(spam=case["spam"], ham=case["ham"], text=bodies[i][1], setup=extra, mins=case["mins"], model_score=want, tags=r["tags"])
        if want is None:
            check_eq(r["tests"], [], "rules that match without a score", **info)
            continue
        note.nontrivial("scored")
        edge = min(abs(want - k / BANDS) for k in range(BANDS + 1)) < 1e-9
        check("ALL" in r["tests"], "the rule for all scores matches", **info)
        check_eq("TOP" in r["tests"], want > 0.8, "rule without a maximum", **info) if not edge else None
        got = [t for t in r["tests"] if t.startswith("B")]
        check_eq(len(got), 1, "exactly one band matches", got=got, **info)
        band = min(int(want * BANDS), BANDS - 1)
        note.event("band %d" % (band))
        near = set(["B%02d" % band]) if not edge else set("B%02d" % b for b in (max(round(want * BANDS) - 1, 0), min(round(want * BANDS), BANDS - 1)))
        check(got[0] in near, "band of the score", got=got, near=sorted(near), **info)
        check(abs(float(r["tags"]["BAYES"]) - want) < 1e-6, "score", **info)


FACETS = [Facet("bookkeeping", hist_st, bookkeeping, quick=500), Facet("score", score_st, score, quick=250)]
