"""S04: meta rules."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import gen

PROPERTY = "S04"
RULE = ("cases are (expr) 2-6 leaf rules of any type (some `__`, zero-scored, disabled by tflags, or broken), 1-6 metas over generated expression trees with minimal or extra "
        "parentheses referring to leaves, other metas (forward, cyclic) and undefined names, and two messages; non-trivial = at least one accepted meta whose expression has two or "
        "more operators and at least one leaf hits; (chain) metas up to 9 levels deep in any order, non-trivial from 5 levels and a hit; (deep) over-deep and cyclic chains next to good rules")
ASSUMPTIONS = ["an accepted meta's dependency chain is at most 6 deep, below the documented-in-code limit of 10", "comparisons are not chained (their meaning differs between languages)"]
LEAVES = ["A", "AB", "ABC", "__A", "__AB", "RX1", "RX10", "notrule", "or_rule", "X_msg"]
METAS = ["M", "M_1", "M_10", "__M", "MM", "META_and"]
UNDEF = ["UNDEF", "A_", "M_2"]

BIN = {"*": 6, "+": 5, "-": 5, "<": 4, ">": 4, "<=": 4, ">=": 4, "==": 4, "!=": 4, "&&": 2, "||": 1}


def exprs(names):
    leaf = st.one_of(st.sampled_from(names).map(lambda n: ["name", n]), st.sampled_from(names).map(lambda n: ["name", n]),
                     st.integers(0, 3).map(lambda i: ["int", i]))
    return st.recursive(leaf, lambda sub: st.one_of(
        st.tuples(st.just("!"), sub).map(list),
        st.tuples(st.sampled_from(["&&", "||"]), sub, sub).map(list),
        st.tuples(st.sampled_from(sorted(BIN)), sub, sub).map(list),
        st.tuples(st.just("()"), sub).map(list)), max_leaves=7)


@st.composite
def cases(draw):
    leaves = []
    for name in draw(st.lists(st.sampled_from(LEAVES), unique=True, min_size=2, max_size=6)):
        leaves.append(dict(name=name, kind=draw(st.sampled_from(gen.RULE_KINDS)), word=draw(st.integers(0, 4)),
                           state=draw(st.sampled_from(["on", "on", "on", "on", "zero", "net", "broken"]))))
    names = [l["name"] for l in leaves]
    mnames = draw(st.lists(st.sampled_from(METAS), unique=True, min_size=1, max_size=6))
    metas = []
    for m in mnames:
        pool = list(names) * 2 + draw(st.sampled_from([[], mnames, [x for x in mnames if x > m] * 2, [x for x in mnames if x > m] * 2, [x for x in mnames if x < m] * 2, [UNDEF[0]]]))
        style = draw(st.sampled_from(["ok"] * 30 + ["trail", "paren", "juxta", "close", "op"]))
        metas.append(dict(name=m, expr=draw(exprs(pool)), style=style, sp=draw(st.lists(st.sampled_from(["", " ", "  "]), min_size=1, max_size=4)),
                          score=draw(st.sampled_from([None, 2.0, -0.5, 0.0]))))
    order = draw(st.permutations(list(range(len(leaves) + len(metas)))))
    msgs = draw(st.lists(st.lists(st.integers(0, 4), unique=True, max_size=5), min_size=2, max_size=2))
    return dict(leaves=leaves, metas=metas, order=list(order), msgs=msgs, net=draw(st.booleans()))


def render(e, sp, i=None):
    i = i if i is not None else [0]

    def s():
        i[0] += 1
        return sp[i[0] % len(sp)]
    op = e[0]
    if op in ("name", "int"):
        return str(e[1])
    if op == "()":
        return "(" + s() + render(e[1], sp, i) + s() + ")"
    if op == "!":
        x = render(e[1], sp, i)
        if e[1][0] in BIN:
            x = "(" + x + ")"
        return "!" + s() + x
    p = BIN[op]
    out = []
    for side, sub in ((0, e[1]), (1, e[2])):
        x = render(sub, sp, i)
        if sub[0] in BIN:
            q = BIN[sub[0]]
            if q < p or (q == p and (side == 1 or p == 4)):
                x = "(" + x + ")"
        out.append(x)
    return out[0] + s() + op + s() + out[1]


def refs(e):
    if e[0] == "name":
        return {e[1]}
    return set().union(*[refs(x) for x in e[1:] if isinstance(x, list)]) if e[0] != "int" else set()


def nops(e):
    return (0 if e[0] in ("name", "int") else (0 if e[0] == "()" else 1) + sum(nops(x) for x in e[1:] if isinstance(x, list)))


def ev(e, val):
    op = e[0]
    if op == "name":
        return val(e[1])
    if op == "int":
        return e[1]
    if op == "()":
        return ev(e[1], val)
    if op == "!":
        return 0 if ev(e[1], val) else 1
    a = ev(e[1], val)
    if op == "&&":
        return ev(e[2], val) if a else a
    if op == "||":
        return a if a else ev(e[2], val)
    b = ev(e[2], val)
    return {"*": lambda: a * b, "+": lambda: a + b, "-": lambda: a - b, "<": lambda: int(a < b), ">": lambda: int(a > b), "<=": lambda: int(a <= b),
            ">=": lambda: int(a >= b), "==": lambda: int(a == b), "!=": lambda: int(a != b)}[op]()


def meta_text(m):
    t = render(m["expr"], m["sp"])
    return {"ok": t, "trail": t + " &&", "paren": "(" + t, "juxta": t + " 1", "close": t + ")", "op": t + " && || 1"}[m["style"]]


def body(case, w, note):
    lines = []
    defs = case["leaves"] + case["metas"]
    for i in case["order"]:
        d = defs[i]
        if "expr" in d:
            lines.append("meta %s %s" % (d["name"], meta_text(d)))
            if d["score"] is not None:
                lines.append("score %s %s" % (d["name"], gen.fmt(d["score"])))
        else:
            lines.append(gen.rule_line(d["kind"], d["name"], gen.WORDS[d["word"]]) if d["state"] != "broken" else "body %s /(/" % d["name"])
            if d["state"] == "zero":
                lines.append("score %s 0" % d["name"])
            elif d["state"] == "net":
                lines.append("tflags %s net" % d["name"])
    lines.append("use_network %d" % case["net"])
    text = "\n".join(lines) + "\n"
    leaves = {l["name"]: l for l in case["leaves"] if l["state"] != "broken"}
    metas = {m["name"]: m for m in case["metas"]}
    bad = set(m for m in metas if metas[m]["style"] != "ok")
    # transitive closure of rejection, cycles included
    good = set()
    while True:
        new = set(m for m in metas if m not in bad and m not in good and all(r in leaves or r in good for r in refs(metas[m]["expr"])))
        if not new:
            break
        good |= new
    msgs = [gen.probe_message([gen.WORDS[i] for i in m]) for m in case["msgs"]]
    res = w.call("core.scan", dict(files=[["a.cf", text]], msgs=msgs, want=["evaluated"]))
    check(res["load_exc"] is None, "the configuration failed to load", conf=text, exc=res["load_exc"])
    for words, out in zip(case["msgs"], res["results"]):
        check("exc" not in out, "scanning raised", conf=text, out=out)

        def val(n):
            if n in leaves:
                return int(leaves[n]["word"] in words)
            return ev(metas[n]["expr"], val)

        def val1(n):
            # a meta used inside another contributes its own value
            return val(n)
        exp, evald, total = [], [], 0.0
        for n in list(leaves) + sorted(good):
            if n.startswith("__"):
                continue
            if n in leaves:
                sc = {"on": 1.0, "zero": 0.0, "net": 1.0 if case["net"] else 0.0}[leaves[n]["state"]]
            else:
                sc = 1.0 if metas[n]["score"] is None else metas[n]["score"]
            if not sc:
                continue
            evald.append(n)
            if val1(n):
                exp.append(n)
                total += sc
        check_eq(sorted(out["evaluated"]), sorted(evald), "rules accepted and evaluated", conf=text, words=[gen.WORDS[i] for i in words])
        check_eq(sorted(out["tests"]), sorted(exp), "rules that matched", conf=text, words=[gen.WORDS[i] for i in words])
        check_eq(float(out["score"]), total, "score", conf=text)
        note.nontrivial(any(nops(metas[m]["expr"]) >= 2 for m in good) and any(l["word"] in words for l in leaves.values()))
    note.event("rejected metas" if len(good) < len(metas) else "all accepted")
    note.event(*["style " + m["style"] for m in case["metas"]])
    if any(refs(metas[m]["expr"]) & good for m in good):
        note.event("meta of meta")


def deep_cases():
    return st.tuples(st.integers(12, 30), st.booleans(), st.booleans(), st.integers(0, 3)).map(lambda t: dict(n=t[0], loop=t[1], hit=t[2], extra=t[3]))


def deep_body(case, w, note):
    """A chain beyond the recursion limit or a loop costs no other rule."""
    n = case["n"]
    lines = ["body GOOD /tokalpha/", "meta SHALLOW GOOD && !__B", "body __B /tokbravo/"]
    lines += ["meta D%d D%d || GOOD" % (i, i + 1) for i in range(n)]
    lines.append("meta D%d %s" % (n, "D0" if case["loop"] else "GOOD"))
    if case["extra"]:
        lines.append("meta LAST SHALLOW + GOOD == 2")
    text = "\n".join(lines) + "\n"
    res = w.call("core.scan", dict(files=[["a.cf", text]], msgs=[gen.probe_message(["tokalpha"] if case["hit"] else [])], want=["evaluated"]))
    check(res["load_exc"] is None, "the configuration failed to load", conf=text, exc=res["load_exc"])
    out = res["results"][0]
    check("exc" not in out, "scanning raised", conf=text, out=out)
    ok = set(["GOOD", "SHALLOW"] + (["LAST"] if case["extra"] else []))
    got = set(out["evaluated"])
    check(ok <= got, "rules next to an over-deep meta are kept", conf=text, got=sorted(got))
    check("D0" not in got, "an over-deep meta is rejected", conf=text, got=sorted(got))
    check(set(out["tests"]) & ok == (ok if case["hit"] else set()), "rules next to an over-deep meta still work", conf=text, tests=out["tests"])
    if case["loop"]:
        check(got == ok, "metas on a cycle are rejected", conf=text, got=sorted(got))
    note.nontrivial(case["hit"])
    note.event("loop" if case["loop"] else "chain")


chain_st = st.fixed_dictionaries(dict(links=st.lists(st.tuples(st.sampled_from(["%s && __T", "%s || __N", "__T && !__N && %s", "%s + __T + __N > 1", "!(!%s || __N)", "%s && (__T || __N || LOW)", "%s"]), st.booleans()).map(list), min_size=3, max_size=9),
                                      hit=st.booleans(), order=st.integers(0, 10 ** 6)))


def chain_body(case, w, note):
    """A chain of metas within the recursion limit has the value of its expression, in whatever order it is written."""
    n = len(case["links"])
    lines = ["body LOW /tokalpha/", "body __T /some text/", "body __N /absenttoken/"]
    names = [("__D%d" if hidden and i else "D%d") % i for i, (_, hidden) in enumerate(case["links"])] + ["LOW"]
    metas = ["meta %s %s" % (names[i], case["links"][i][0] % names[i + 1]) for i in range(n)]
    k = case["order"]
    rest = list(metas)
    while rest:
        lines.insert(k % (len(lines) + 1), rest.pop(k % len(rest)))
        k = k // 7 + 13 * len(rest)
    text = "\n".join(lines) + "\n"
    out = w.call("core.scan", dict(files=[["a.cf", text]], msgs=[gen.probe_message(["tokalpha"] if case["hit"] else [])], want=["evaluated"]))
    check(out["load_exc"] is None, "the configuration failed to load", conf=text, exc=out["load_exc"])
    out = out["results"][0]
    check("exc" not in out, "scanning raised", conf=text, out=out)
    shown = sorted(x for x in names if not x.startswith("__"))
    check_eq(sorted(out["evaluated"]), shown, "rules accepted and evaluated", conf=text)
    check_eq(sorted(out["tests"]), shown if case["hit"] else [], "rules that matched", conf=text)
    note.nontrivial(case["hit"] and n >= 5)


FACETS = [Facet("expr", cases(), body, quick=2400), Facet("chain", chain_st, chain_body, quick=400), Facet("deep", deep_cases(), deep_body, quick=80)]
