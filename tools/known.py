"""Write known_findings.json: open findings, and one line per fixed defect."""
import json, subprocess
OPEN = [
    dict(id="dkim-author-sig-unverified", property="G14", facet="signatures", status="open", what="check_dkim_valid_author_sig() without arguments matches an author domain's signature made with another key than the published one (DKIMPlugin keeps dkim_has_valid_author_sig set when verification fails; the stable test test_dkim_valid_author_sig, whose signature does not verify with the installed library, and test_check_dkim_signature_result_false require it)",
         case={"allow": ["example.com"], "minbits": None, "white": [], "unwhite": [], "defwhite": [], "over": [], "adspdom": "example.com", "order": 0, "finding": True, "msgs": [{"author": "example.com", "user": "user", "spell": 0, "named": False, "nofrom": False, "sigs": [{"domain": "author", "key": "a", "canon": ["simple", "simple"], "headers": ["From", "Subject", "To"], "upper": False}], "garbage": None, "edit": "none", "flip": False, "crlf": False, "dns": "other"}]}),
]
# commit subject prefix -> properties
FIXED = []
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], universal_newlines=True).splitlines()
PROPS = json.load(open("/verif/tools/fix_props.json"))
for line in log:
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    s = s[5:]
    for p in PROPS.get(s, ["?"]):
        FIXED.append("fixed: property=%s %s %s" % (p, h, s))
        if p == "?":
            print("no property for", s)
json.dump({"findings": OPEN, "fixed": FIXED}, open("/verif/known_findings.json", "w"), indent=1)
print(len(OPEN), "open", len(FIXED), "fixed")
