"""G06: image and PDF checks count and measure the real attachments."""
import hashlib
import re
import struct
import zlib
from fractions import Fraction
from hypothesis import strategies as st
from harness import mime
from harness.core import Facet, check
from checks.g05 import Rules, judge, scan, bound, call, limits, fmt, arg

PROPERTY = "G06"
RULE = ("cases are messages with generated GIF, PNG, JPEG and PDF attachments (dimensions, names, metadata, embedded images, encryption, duplicates, damaged files) in base64 or quoted-printable, nested to two levels, with rules whose arguments are on and next to the true counts, sizes, areas, names and digests; "
        "non-trivial = at least one rule is expected to match and one not to")
ASSUMPTIONS = ["attachments are small well-formed files or obviously damaged ones", "image_to_text_ratio is judged when the message has a valid image of the type"]
SIZES = [(1, 1), (2, 3), (3, 2), (10, 10), (10, 11), (100, 20), (264, 127), (127, 264)]
NAMES = ["image001.gif", "photo.PNG", "a.jpg", "my image.png", "test.pdf", "mytest.pdf", "dsc0001.jpg", "caf\u00e9.gif"]
RX = [r"/^dsc\d+\.\w{3}$/", r"/image/", r"/\.GIF$/i", r"/^(?:my|your)test\.pdf$/", r"/^test/", "/none/", r"/photo\.png/"]
AUTHORS = ["mobile", "Mobile Phone", "Acrobat", "writer", ""]


def gif(w, h):
    return b"GIF89a" + struct.pack("<HHBBB", w, h, 0x80, 0, 0) + b"\0\0\0\xff\xff\xff" + b"," + struct.pack("<HHHHB", 0, 0, w, h, 0) + b"\x02\x02\x4c\x01\x00;"


def png(w, h):
    def chunk(t, d):
        return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d) & 0xffffffff)
    return b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 0, 0, 0, 0)) + chunk(b"IDAT", zlib.compress(b"\0" * ((w + 1) * h))) + chunk(b"IEND", b"")


def jpeg(w, h):
    return (b"\xff\xd8\xff\xe0" + struct.pack(">H", 16) + b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0" + b"\xff\xdb\0\x43\0" + b"\x10" * 64 + b"\xff\xc0" + struct.pack(">HBHHB", 11, 8, h, w, 1) + b"\x01\x11\0"
            + b"\xff\xda\0\x08\x01\x01\0\0\x3f\0" + b"\x55" * 10 + b"\xff\xd9")


def pdf(info, images, text, encrypted, seed):
    objs = [b"<< /Type /Catalog /Pages 2 0 R >>", b"<< /Type /Pages /Kids [3 0 R] /Count 1 >>"]
    n = 5
    names = []
    imgs = []
    for i, (w, h) in enumerate(images):
        names.append(b"/Im%d %d 0 R" % (i, n + i))
        imgs.append(b"<< /Type /XObject /Subtype /Image /Width %d /Height %d /ColorSpace /DeviceGray /BitsPerComponent 8 /Length 1 >>\nstream\n0\nendstream" % (w, h))
    objs.append(b"<< /Type /Page /Parent 2 0 R /Contents 4 0 R /Resources << %s >> >>" % (b"/XObject << " + b" ".join(names) + b" >>" if names else b""))
    content = b"BT /F1 12 Tf (" + text.encode() + b") Tj ET"
    objs.append(b"<< /Length %d >>\nstream\n%s\nendstream" % (len(content), content))
    objs += imgs
    objs.append(b"<< " + b" ".join(b"/" + k.encode() + b" (" + v.encode() + b")" for k, v in info) + b" >>")
    out = b"%PDF-1.4\n%" + str(seed).encode() + b"\n"
    offs = []
    for i, o in enumerate(objs):
        offs.append(len(out))
        out += b"%d 0 obj\n%s\nendobj\n" % (i + 1, o)
    x = len(out)
    out += b"xref\n0 %d\n0000000000 65535 f \n" % (len(objs) + 1) + b"".join(b"%010d 00000 n \n" % o for o in offs)
    out += b"trailer\n<< /Size %d /Root 1 0 R /Info %d 0 R %s >>\nstartxref\n%d\n%%%%EOF\n" % (len(objs) + 1, len(objs), b"/Encrypt << /Filter /Standard /V 1 /R 2 /O (%s) /U (%s) /P -4 >> /ID [<01> <01>]" % (b"x" * 32, b"y" * 32) if encrypted else b"", x)
    return out


GEN = {"gif": gif, "png": png, "jpeg": jpeg}
named = st.tuples(st.one_of(st.none(), st.sampled_from(NAMES)), st.sampled_from(["type", "disposition", "both", "type"])).map(list)
image = st.fixed_dictionaries(dict(kind=st.sampled_from(["gif", "png", "jpeg"]), declared=st.sampled_from([None, None, None, "gif", "png", "bmp"]), size=st.sampled_from(SIZES), broken=st.sampled_from([0, 0, 0, 0, 1]), name=named))
info = st.lists(st.tuples(st.sampled_from(["Author", "Creator", "Producer", "Title"]), st.sampled_from(AUTHORS)), max_size=4, unique_by=lambda t: t[0]).map(lambda l: [list(x) for x in l])
pdfs = st.fixed_dictionaries(dict(kind=st.just("pdf"), info=info, images=st.lists(st.sampled_from(SIZES), max_size=3), text=st.sampled_from(["Hello", "Other text", ""]), encrypted=st.sampled_from([False, False, False, True]), broken=st.sampled_from([0, 0, 0, 0, 1]), seed=st.integers(0, 2), name=named))


def case_st(item):
    return st.fixed_dictionaries(dict(items=st.lists(item, max_size=4), cte=st.lists(st.sampled_from(["base64", "base64", "quoted-printable", "BASE64"]), min_size=4, max_size=4), nest=st.lists(st.booleans(), min_size=4, max_size=4), shape=st.sampled_from(["multi", "multi", "single"]), again=st.booleans(),
                                      b=st.lists(bound, min_size=16, max_size=16), pick=st.lists(st.integers(0, 9), min_size=8, max_size=8)))


def data_of(it):
    if it["broken"]:
        return b"%PDF-1.4 damaged" if it["kind"] == "pdf" else b"damaged image " + it["kind"].encode()
    if it["kind"] == "pdf":
        return pdf(it["info"], it["images"], it["text"], it["encrypted"], it["seed"])
    return GEN[it["kind"]](*it["size"])


def quote(name):
    try:
        name.encode("ascii")
        return '="%s"' % name
    except UnicodeEncodeError:
        return "*=utf-8''" + "".join(c if c.isalnum() and ord(c) < 128 or c == "." else "".join("%%%02X" % b for b in c.encode("utf-8")) for c in name)


def build(case):
    items = list(case["items"])
    if case["again"] and items:
        items = items[:3] + [items[0]]
    if case["shape"] == "single":
        items = items[:1]
    leaves, files = [], []
    for i, it in enumerate(items):
        data = data_of(it)
        ctype = "application/pdf" if it["kind"] == "pdf" else "image/" + (it.get("declared") or it["kind"])
        name, where = it["name"]
        heads = [["Content-Transfer-Encoding", case["cte"][i]]]
        ct = ctype
        if name and where in ("type", "both"):
            ct += "; name" + quote(name)
        if name and where in ("disposition", "both"):
            heads.append(["Content-Disposition", "attachment; filename" + quote(name)])
        elif not name and where == "disposition":
            heads.append(["Content-Disposition", "inline"])
        if case["cte"][i] == "quoted-printable":
            s = "".join("=%02X" % b for b in data)
            body = "=\n".join(s[j:j + 72] for j in range(0, len(s), 72))
        else:
            body = mime.b64(data, 60)
        leaves.append(dict(ctype=ct, headers=heads, body=body))
        files.append((it, ctype.split("/")[1], data, name))
    head = [["From", "a@example.com"], ["Subject", "s"], ["MIME-Version", "1.0"]]
    if case["shape"] == "single" and leaves:
        return mime.render(leaves[0], top_headers=head), files
    kids = [dict(ctype="text/plain", headers=[], body="some text here\nand more")]
    inner = [l for l, n in zip(leaves, case["nest"]) if n]
    kids += [l for l, n in zip(leaves, case["nest"]) if not n]
    if inner:
        kids.append(dict(ctype="multipart/related", children=[dict(ctype="text/html", headers=[], body="<p>html text</p>")] + inner))
    return mime.render(dict(ctype="multipart/mixed", children=kids), top_headers=head), files


def name_rules(r, case, files, fn, regex_fn):
    names = {n for _, _, _, n in files if n}
    for i in case["pick"][:3]:
        n = NAMES[i % 7]
        r.add("body", "%s('%s')" % (fn, n), n in names)
    for i in case["pick"][3:6]:
        x = RX[i % len(RX)]
        m = re.match(r"/(.*)/(i?)$", x)
        r.add("body", "%s('%s')" % (regex_fn, x), any(re.search(m.group(1), n, re.I if m.group(2) else 0) for n in names))


def image_body(case, w, note):
    raw, files = build(case)
    r = Rules(["image_info.ImageInfoPlugin"])
    files = [f for f in files if f[0]["kind"] != "pdf"]
    name_rules(r, case, files, "image_named", "image_name_regex")
    b = iter(case["b"])
    seen = None
    for t in ("all", ["gif", "png", "jpeg", "bmp"][case["pick"][6] % 4]):
        mine = [f for f in files if t in ("all", f[1])]
        good = [f[0]["size"] for f in mine if not f[0]["broken"]]
        x = next(b)
        r.add("body", call("image_count", x, t, len(mine) + x[0]) if x[2] else "image_count('%s', %d)" % (t, len(mine) + x[0]), x[0] <= 0)
        x = next(b)
        lo, hi = len(mine) + x[0], max(0, len(mine) + x[1])
        r.add("body", call("image_count", x, t, lo, hi) if x[2] else "image_count('%s', %d, %d)" % (t, lo, hi), lo <= len(mine) <= hi)
        area = sum(a * c for a, c in good)
        x = next(b)
        lo, hi = area + x[0], max(0, area + x[1])
        r.add("body", "pixel_coverage('%s', '%d', '%d')" % (t, lo, hi), lo <= area <= hi)
        r.add("body", "pixel_coverage('%s', %d)" % (t, lo), lo <= area)
        x = next(b)
        base = good[case["pick"][7] % len(good)] if good else (10, 10)
        h, v = base[1] + (x[0] if case["pick"][0] % 3 == 0 else 0), base[0] + (x[1] if case["pick"][0] % 3 == 1 else 0)
        r.add("body", "image_size_exact('%s', '%d', '%d')" % (t, h, v), (v, h) in [tuple(g) for g in good])
        x, y = next(b), next(b)
        minh, minw, maxh, maxw = base[1] + x[0] - (not x[2]), base[0] + x[1] - (not x[2]), base[1] + y[0] + (not y[2]), base[0] + y[1] + (not y[2])
        r.add("body", "image_size_range('%s', '%d', '%d', '%d', '%d')" % (t, minh, minw, maxh, maxw), any(minh <= gh <= maxh and minw <= gw <= maxw for gw, gh in good))
        r.add("body", "image_size_range('%s', %d, %d)" % (t, minh, minw), any(minh <= gh and minw <= gw for gw, gh in good))
        if area:
            if seen is None:
                seen = scan(w, ["loadplugin oa.plugins.image_info.ImageInfoPlugin"], raw, ["text"])
            for kind, text in (("body", seen["text"]), ("rawbody", seen["raw_text"])):
                x = case["b"][15]
                v = Fraction(len(text), area)
                lo, hi = limits(v, x, step=Fraction(1, 100))
                r.add(kind, call("image_to_text_ratio", x, t, fmt(lo), fmt(hi)) if x[2] else "image_to_text_ratio('%s', %s, %s)" % (t, fmt(lo), fmt(hi)), lo <= v <= hi)
                r.add(kind, "image_to_text_ratio('%s', '%s')" % (t, fmt(lo)), lo <= v)
    for (it, sub, data, name) in files:
        note.event("image %s%s" % (sub, " broken" if it["broken"] else ""))
    judge(w, note, r, raw)


def pdf_body(case, w, note):
    raw, files = build(case)
    r = Rules(["pdf_info.PDFInfoPlugin"])
    files = [f for f in files if f[1] == "pdf"]
    name_rules(r, case, files, "pdf_named", "pdf_name_regex")
    b = iter(case["b"])
    good = [f for f in files if not f[0]["broken"]]
    plain = [f for f in good if not f[0]["encrypted"]]
    imgs = [s for f in plain for s in f[0]["images"]]
    for fn, v in (("pdf_count", len(files)), ("pdf_image_count", len(imgs)), ("pdf_pixel_coverage", sum(x * y for x, y in imgs))):
        for k in range(2):
            x = next(b)
            lo, hi = v + x[0], max(0, v + x[1])
            r.add("body", call(fn, x, lo, hi), lo <= v <= hi)
            r.add("body", call(fn, x, lo), lo <= v)
    size = sum(len(f[2]) for f in files)
    for k in range(2):
        x = next(b)
        r.add("body", call("pdf_is_empty_body", x, size + x[0]), files and x[0] >= 0)
    r.add("body", "pdf_is_encrypted()", any(f[0]["encrypted"] for f in good))
    sums = {hashlib.md5(f[2]).hexdigest() for f in files}
    for i in case["pick"][:2]:
        it = case["items"][i % len(case["items"])] if case["items"] else None
        d = hashlib.md5(data_of(it)).hexdigest() if it and i < 6 else hashlib.md5(b"x%d" % i).hexdigest()
        r.add("body", "pdf_match_md5('%s')" % (d.upper() if i % 2 else d), d in sums)
    for t in ("Hello", "Other text"):
        d = hashlib.md5(t.encode()).hexdigest()
        r.add("body", "pdf_match_fuzzy_md5('%s')" % (d.upper() if t == "Hello" else d), any(f[0]["text"] == t for f in plain))
    for i, key in enumerate(["author", "creator", "producer", "title"]):
        rx = ["^mobile$", "obil", "Acro", "^writer", "mobile"][case["pick"][i] % 5]
        flag = "i" if case["pick"][i] % 2 else ""
        r.add("body", "pdf_match_details('%s', '/%s/%s')" % (key, rx, flag), any(k.lower() == key and re.search(rx, v, re.I if flag else 0) for f in plain for k, v in f[0]["info"]))
    for (it, sub, data, name) in files:
        note.event("pdf%s" % (" broken" if it["broken"] else " encrypted" if it["encrypted"] else ""))
    judge(w, note, r, raw)


FACETS = [Facet("images", case_st(st.one_of(image, image, image, pdfs)), image_body, quick=260), Facet("pdfs", case_st(st.one_of(pdfs, pdfs, pdfs, image)), pdf_body, quick=260)]
