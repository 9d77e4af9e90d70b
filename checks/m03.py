"""M03: a message's result depends only on the message and the ruleset."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq
from harness import mail

PROPERTY = "M03"
RULE = ("cases are sequences of 2-6 scans over 2-4 generated mails (repeats included) with one loaded ruleset over all offline plugins; each scan is compared with the same mail scanned alone by a freshly loaded copy in a fresh process, and the options and rules held after the sequence with those held before; "
        "non-trivial = two different mails of the sequence match different non-empty sets of rules")
ASSUMPTIONS = ["learning plugins (bayes, awl) are left out: keeping state between messages is their purpose", "network access is refused, as in a scanner without network"]
WANT = ["evaluated", "report", "unsafe", "adjusted", "headers", "matched_report", "relays", "from_to", "tags", "text"]
case_st = st.fixed_dictionaries(dict(
    mails=st.lists(mail.mail, min_size=2, max_size=4), seq=st.lists(st.integers(0, 3), min_size=2, max_size=6),
    evals=st.one_of(mail.evals, mail.many, mail.many), options=mail.many_options, safe=st.sampled_from([0, 1, 2]), req=st.sampled_from([-100, 5, 5, 1000])))


def body(case, w, note):
    raws = [mail.render(m) for m in case["mails"]]
    seq = [i % len(raws) for i in case["seq"]]
    text = mail.config(case["evals"], case["options"], None, ["report_safe %d" % case["safe"], "required_score %s" % case["req"]])
    got = w.call("conf.sequence", dict(files=[["a.cf", text]], msgs=[raws[i] for i in seq], want=WANT), cpu=60)
    check(got["load_exc"] is None, "the configuration failed to load", exc=got["load_exc"])
    alone = {}
    for i in sorted(set(seq)):
        alone[i] = w.call("conf.sequence", dict(files=[["a.cf", text]], msgs=[raws[i]], want=WANT), cpu=30)["results"][0]
    for pos, i in enumerate(seq):
        for key in sorted(set(alone[i]) | set(got["results"][pos])):
            check_eq(got["results"][pos].get(key), alone[i].get(key), "%s of scan %d" % (key, pos), sequence=seq, message=raws[i], previous=raws[seq[pos - 1]] if pos else None)
    check_eq(got["after"], got["before"], "options and rules after scanning", sequence=seq)
    sets = set(tuple(alone[i].get("tests", ())) for i in seq)
    note.nontrivial(len(sets) > 1 and () not in sets)


FACETS = [Facet("sequence", case_st, body, quick=400)]
