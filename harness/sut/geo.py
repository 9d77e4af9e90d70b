"""Country databases in the legacy format, and scans that use them."""
import ipaddress
import os

from sut import core

BEGIN = 16776960


def database(entries, version):
    """entries: [[network, code]]; the longest network that contains an address decides. The format is a binary trie of 24 bit records."""
    from pygeoip import const
    top = 32 if version == 4 else 128
    root = [BEGIN, BEGIN]
    for net, code in sorted(entries, key=lambda e: ipaddress.ip_network(e[0]).prefixlen):
        net = ipaddress.ip_network(net)
        leaf = BEGIN + const.COUNTRY_CODES.index(code)
        node = root
        value = int(net.network_address)
        for depth in range(net.prefixlen):
            bit = (value >> (top - 1 - depth)) & 1
            if depth == net.prefixlen - 1:
                node[bit] = leaf
            else:
                if not isinstance(node[bit], list):
                    node[bit] = [node[bit], node[bit]]
                node = node[bit]
    order = []

    def number(node):
        order.append(node)
        for sub in node:
            if isinstance(sub, list):
                number(sub)
    import sys
    sys.setrecursionlimit(5000)
    number(root)
    index = dict((id(n), i) for i, n in enumerate(order))
    out = b"".join((index[id(x)] if isinstance(x, list) else x).to_bytes(3, "little") for n in order for x in n)
    return out + b"\x00" * 60 + (b"\x00\x00\x00" if version == 4 else b"\xff\xff\xff" + bytes([const.COUNTRY_EDITION_V6]))


def scan(arg):
    """arg: v4, v6 (a list of entries, None for no file, or a kind of damage), conf, msgs."""
    lines = []
    base = os.path.join(os.getcwd(), "geo")
    os.makedirs(base)
    for version, option in ((4, "geodb"), (6, "geodb-ipv6")):
        spec = arg["v%d" % version]
        path = os.path.join(base, option + ".dat")
        lines.append("%s %s" % (option, path))
        if spec is None:
            continue
        if spec == "directory":
            os.makedirs(path)
            continue
        if isinstance(spec, list):
            data = database(spec, version)
        else:
            data = {"empty": b"", "short": b"\x01", "text": b"country,code\n1.2.3.4,GB\n" * 4, "zeros": b"\x00" * 60, "city": b"\x00" * 60 + b"\xff\xff\xff\x02\x01\x00\x00", "cut": database([["64.0.0.0/3", "US"], ["2000::/3", "US"]][version == 6:][:1], version)[:9],
                    "org": b"\x01" * 60 + b"\xff\xff\xff\x05\x03\x00\x00"}[spec]
        with open(path, "wb") as f:
            f.write(data)
    try:
        ruleset = core.load([["main.cf", "\n".join(["loadplugin oa.plugins.relay_country.RelayCountryPlugin"] + lines + arg["conf"]) + "\n"]])
    except Exception as e:
        return {"exc": core.exc(e)}
    out = []
    for raw in arg["msgs"]:
        r = core.scan_message(ruleset, raw, ["adjusted"])
        out.append(dict((k, r.get(k)) for k in ("tests", "adjusted", "exc")))
    return {"results": out}
