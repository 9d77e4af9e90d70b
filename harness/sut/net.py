"""Network lists, relay paths, Received headers, DNS."""
import ipaddress
import time

from sut import core


def networks(arg):
    """Membership of addresses in the three lists of a loaded configuration."""
    ruleset = core.load(arg["files"])
    nets = ruleset.ctxt.networks
    return dict((name, [ipaddress.ip_address(ip) in getattr(nets, name) for ip in arg["ips"]]) for name in ("trusted", "internal", "msa"))


def received(arg):
    import oa.received_parser
    return [dict((k, str(v)) for k, v in r.items()) for r in oa.received_parser.ReceivedParser(arg).received]


class Answer(list):
    """The records, with the attributes of an answer that are in use."""

    def __init__(self, qname, rdtype, records):
        import dns.rdatatype
        list.__init__(self, records)
        self.rrset = self
        self.rdtype = dns.rdatatype.from_text(str(rdtype))
        self.items = records
        self.name = self.qname = qname
        self.response = self
        self.answer = [self]


class Dns(object):
    """Stands in for dns.resolver.Resolver's queries: answers come from a table, every query is recorded."""

    def __init__(self, table):
        import dns.resolver
        self.table = dict(((q.lower().rstrip("."), t), a) for q, t, a in table)
        self.seen = []
        fake = self

        def query(resolver, qname, rdtype="A", *args, **kwargs):
            return fake.answer(resolver, qname, rdtype)
        dns.resolver.Resolver.query = query
        dns.resolver.Resolver.resolve = query

    def answer(self, resolver, qname, rdtype):
        import dns.exception
        import dns.rdata
        import dns.rdataclass
        import dns.rdatatype
        import dns.resolver
        if isinstance(rdtype, int):
            rdtype = dns.rdatatype.to_text(rdtype)
        self.seen.append(dict(name=str(qname), type=str(rdtype), servers=list(resolver.nameservers), port=resolver.port, lifetime=resolver.lifetime, timeout=resolver.timeout))
        got = self.table.get((str(qname).lower().rstrip("."), str(rdtype)), "nxdomain")
        if isinstance(got, list):
            return Answer(qname, rdtype, [dns.rdata.from_text(dns.rdataclass.IN, dns.rdatatype.from_text(str(rdtype)), x) for x in got])
        raise {"nxdomain": dns.resolver.NXDOMAIN(), "noanswer": dns.exception.DNSException("no answer"), "timeout": dns.exception.Timeout(), "noservers": dns.resolver.NoNameservers(),
               "os": OSError("unreachable"), "refused": ConnectionRefusedError(111, "refused"), "value": ValueError("bad"), "form": dns.exception.FormError("bad reply")}[got]


def lookups(arg):
    """Load a configuration and make lookups through its DNS interface."""
    import datetime as real
    import oa.dns_interface
    fake = Dns(arg["table"])
    clock = [real.datetime(2020, 1, 1)]

    class Clock(real.datetime):
        @classmethod
        def now(cls, tz=None):
            return clock[0]

        @classmethod
        def utcnow(cls):
            return clock[0]

    class Module(object):
        def __init__(self, module, **kwargs):
            self.__dict__.update(vars(module), **kwargs)
    seconds = lambda: (clock[0] - real.datetime(1970, 1, 1)).total_seconds()
    for key, value in list(vars(oa.dns_interface).items()):
        if value is real:
            setattr(oa.dns_interface, key, Module(real, datetime=Clock))
        elif value is real.datetime:
            setattr(oa.dns_interface, key, Clock)
        elif value is time:
            setattr(oa.dns_interface, key, Module(time, time=seconds, monotonic=seconds))
        elif value in (time.time, time.monotonic):
            setattr(oa.dns_interface, key, seconds)
    ruleset = core.load(arg["files"])
    clock[0] += real.timedelta(seconds=1)
    out = []
    for name, qtype, wait, answers in arg["queries"]:
        clock[0] += real.timedelta(seconds=wait)
        for q, t, a in answers:
            fake.table[(q, t)] = a
        n = len(fake.seen)
        try:
            res = [str(x) for x in ruleset.ctxt.dns.query(name, qtype)]
            out.append(dict(result=res, seen=fake.seen[n:]))
        except Exception as e:
            out.append(dict(exc=core.exc(e), seen=fake.seen[n:]))
    return out


def spf_lookups(fake):
    """The SPF library makes its queries through this function (its own ones do not fit the installed DNS library)."""
    import spf

    def lookup(name, qtype, *args, **kwargs):
        name = name.decode("ascii") if isinstance(name, bytes) else name
        fake.seen.append(dict(name=name, type=qtype))
        got = fake.table.get((name.lower().rstrip("."), qtype), "nxdomain")
        if isinstance(got, list):
            return [((name, qtype), (x.strip('"').encode("ascii"),)) for x in got]
        if got in ("nxdomain", "noanswer"):
            return []
        if got == "os":
            raise OSError("unreachable")
        raise spf.TempError("DNS " + got)
    spf.DNSLookup = lookup


def scan(arg):
    """core.scan with a DNS table; the queries of every message are returned."""
    fake = Dns(arg["table"])
    if arg.get("spf"):
        spf_lookups(fake)
    ruleset = core.load(arg["files"])
    out = []
    for raw in arg["msgs"]:
        n = len(fake.seen)
        r = core.scan_message(ruleset, raw, arg.get("want", ()))
        r["seen"] = [[q["name"].lower().rstrip("."), q["type"]] for q in fake.seen[n:]]
        out.append(r)
    return out
