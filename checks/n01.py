"""N01: network lists: first match decides, loopback always trusted."""
import ipaddress
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "N01"
RULE = ("cases are generated sequences of trusted/internal/msa_networks lines (CIDR, host bits set, partial dotted prefixes, IPv6, brackets, exclusions, clear lines, entries that are no network) x addresses at and around every network boundary; membership in each list is compared with integer arithmetic; "
        "non-trivial = two entries of one list overlap with different signs, and some address is in and some is not")
ASSUMPTIONS = ["all trusted_networks entries are listed before all internal_networks entries in the trusted list (they are separate options)", "three octets without a trailing dot are left out: documentation and code disagree on their mask"]
octet = st.sampled_from([0, 1, 2, 10, 127, 128, 192, 255]) | st.integers(0, 255)
v4 = st.one_of(st.tuples(octet, octet, octet, octet), st.tuples(st.sampled_from([10, 192, 127]), st.sampled_from([0, 1, 168]), st.sampled_from([0, 1, 2, 128]), octet)).map(list)
groups = st.sampled_from([0, 1, 0xdb8, 0xffff, 0x2001, 0xfe80, 0x8000])
v6 = st.lists(groups, min_size=8, max_size=8)
JUNK = ["foo", "1.2.3.4.5", "300.1.1.1", "10.0.0.0/33", "2001:db8::/129", "10.x.", "!", "!!10.", "1.2.3.4-5", "example.com", "10", "0x7f.1", "::1::", "10.0.0.0/", "ffff", "1..2.", "/8", "10.0.0.0/255.0.0.0"]
entry = st.one_of(
    st.fixed_dictionaries(dict(kind=st.just("cidr4"), addr=v4, bits=st.sampled_from([0, 1, 7, 8, 9, 15, 16, 17, 20, 23, 24, 25, 30, 31, 32]), neg=st.booleans(), br=st.booleans())),
    st.fixed_dictionaries(dict(kind=st.just("host4"), addr=v4, bits=st.just(32), neg=st.booleans(), br=st.booleans())),
    st.fixed_dictionaries(dict(kind=st.just("part4"), addr=v4, bits=st.sampled_from([8, 16, 24]), neg=st.booleans(), br=st.booleans())),
    st.fixed_dictionaries(dict(kind=st.just("cidr6"), addr=v6, bits=st.sampled_from([0, 1, 16, 31, 32, 33, 48, 64, 65, 127, 128]), neg=st.booleans(), br=st.booleans())),
    st.fixed_dictionaries(dict(kind=st.just("host6"), addr=v6, bits=st.just(128), neg=st.booleans(), br=st.booleans())),
    st.sampled_from(JUNK[:9] + ["10", "::1::", "ffff", "1..2.", "/8", "10.0.0.0/255.0.0.0"]).map(lambda t: dict(kind="junk", text=t)))
line = st.one_of(st.fixed_dictionaries(dict(opt=st.sampled_from(["trusted", "trusted", "internal", "msa"]), entries=st.lists(entry, min_size=1, max_size=4))), st.sampled_from(["trusted", "internal", "msa"]).map(lambda o: dict(opt=o, entries=None)))
case_st = st.fixed_dictionaries(dict(lines=st.lists(line, max_size=5), ips=st.lists(st.one_of(v4, v6), min_size=1, max_size=4), upper=st.booleans(), full=st.booleans()))


def num(addr):
    n = 0
    for a in addr:
        n = n << (8 if len(addr) == 4 else 16) | a
    return n


def text(e, upper, full):
    if e["kind"] == "junk":
        return e["text"]
    a = e["addr"]
    if e["kind"] == "part4":
        s = "".join("%d." % x for x in a[:e["bits"] // 8])
    elif len(a) == 4:
        s = ".".join(map(str, a))
    else:
        s = ":".join("%x" % x for x in a) if full else str(ipaddress.IPv6Address(num(a)))
        s = s.upper() if upper else s
    if e["br"]:
        s = "[%s]" % s
    if e["kind"].startswith("cidr"):
        s += "/%d" % e["bits"]
    return "!" * e["neg"] + s


def match(e, ip):
    width = 32 if len(e["addr"]) == 4 else 128
    if len(ip) != len(e["addr"]):
        return False
    return num(ip) >> (width - e["bits"]) == num(e["addr"]) >> (width - e["bits"])


def body(case, w, note):
    conf, lists = [], {"trusted": [], "internal": [], "msa": []}
    for l in case["lines"]:
        if l["entries"] is None:
            conf.append("clear_%s_networks" % l["opt"])
            lists[l["opt"]] = []
        else:
            conf.append("%s_networks %s" % (l["opt"], " ".join(text(e, case["upper"], case["full"]) for e in l["entries"])))
            lists[l["opt"]] += [e for e in l["entries"] if e["kind"] != "junk"]
    loop = [dict(addr=[127, 0, 0, 0], bits=8, neg=False), dict(addr=[0] * 7 + [1], bits=128, neg=False)]
    want = {"trusted": loop + lists["trusted"] + lists["internal"], "internal": loop + (lists["internal"] or lists["trusted"]), "msa": lists["msa"]}
    ips = [[127, 0, 0, 1], [127, 255, 255, 255], [126, 255, 255, 255], [128, 0, 0, 0], [0] * 7 + [1], [0] * 7 + [2]] + case["ips"]
    for e in sum(lists.values(), []):
        width = 32 if len(e["addr"]) == 4 else 128
        size = 1 << (width - e["bits"])
        base = num(e["addr"]) // size * size
        for n in (base - 1, base, base + size // 2, base + size - 1, base + size, num(e["addr"])):
            if 0 <= n < 1 << width:
                step = 8 if width == 32 else 16
                ips.append([(n >> s) & ((1 << step) - 1) for s in range(width - step, -1, -step)])
    strs = [str(ipaddress.IPv4Address(num(i)) if len(i) == 4 else ipaddress.IPv6Address(num(i))) for i in ips]
    got = w.call("net.networks", dict(files=[["a.cf", "\n".join(conf) + "\n"]], ips=strs))
    both = False
    for name in ("trusted", "internal", "msa"):
        for ip, s, g in zip(ips, strs, got[name]):
            hits = [e for e in want[name] if match(e, ip)]
            exp = bool(hits) and not hits[0]["neg"]
            both = both or len(set(e["neg"] for e in hits)) == 2
            check_eq(g, exp, "%s in %s networks" % (s, name), conf=conf)
    flat = got["trusted"] + got["internal"] + got["msa"]
    note.nontrivial(both and any(flat) and not all(flat))
    note.event(*sorted(set(e["kind"] for l in case["lines"] for e in l["entries"] or ())))


FACETS = [Facet("lists", case_st, body, quick=2500)]
