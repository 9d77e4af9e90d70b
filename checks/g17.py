"""G17: configuration files are loaded in the documented order."""
from hypothesis import strategies as st
from harness.core import Facet, check, check_eq

PROPERTY = "G17"
RULE = ("cases are generated contents of the site and the default directory (names, extensions, directories, links, dangling links), ways to write their paths (relative, trailing slashes, home, symbolic links, the same twice) and user preferences; the list of files and the rules and scores of the configuration loaded from it are compared with the documented order; "
        "non-trivial = both directories hold files for the configuration, or the same directory is given twice")
ASSUMPTIONS = []
stem = st.one_of(st.sampled_from(["10_default", "20_x", "local", "init", "v310", "V", "a", "B", "zz", "50-scores", "a.b", "", "é", "user prefs", ".hidden"]), st.text("abAB019_-. ", min_size=1, max_size=5))
ext = st.sampled_from([".cf"] * 5 + [".pre"] * 4 + [".CF", ".cf~", ".cf.bak", ".precf", "cf", ".txt", ".pre ", ""])
names = st.tuples(stem, ext).map("".join).filter(lambda n: n not in ("", ".", "..") and not n.startswith("/"))
tree = st.lists(st.tuples(names, st.sampled_from(["file"] * 6 + ["link", "dir", "dangling"])).map(list), max_size=7, unique_by=lambda t: t[0])
SITE = ["site", "site/", "site//", "./site", "default/../site", "alias", "~/../site"]
DEFAULT = ["default", "default/", "site/../default", "~/../default"]
case_st = st.fixed_dictionaries(dict(site=tree, default=tree, sitepath=st.sampled_from(SITE), configpath=st.one_of(st.sampled_from(DEFAULT), st.sampled_from(DEFAULT), st.sampled_from(SITE)), absolute=st.booleans(), three=st.booleans(),
                                     prefs=st.sampled_from([None, "prefs/user_prefs", "prefs/user_prefs", "~/.spamassassin/user_prefs", "prefs/none", "prefs/dir", "prefs/dangling", "prefs/link"])))


def body(case, w, note):
    count = [0]
    scores = {}

    def text(path):
        count[0] += 1
        n = count[0]
        scores[path] = n
        return "body SHARED /x/\nscore SHARED %d\nbody F%d /f%d/\n" % (n, n, n)
    trees = {"site": [[n, k, text("site/" + n)] for n, k in case["site"]], "default": [[n, k, text("default/" + n)] for n, k in case["default"]],
             "prefs": [["user_prefs", "file", text("prefs/user_prefs")], ["dir", "dir", ""], ["dangling", "dangling", ""], ["link", "link", text("prefs/link")]], "home/.spamassassin": [["user_prefs", "file", text("home/.spamassassin/user_prefs")]]}
    res = w.call("misc.config_files", dict(trees=trees, site=case["sitepath"], config=case["configpath"], prefs=case["prefs"], absolute=case["absolute"], three=case["three"]))

    def pick(d, extension):
        return [d + "/" + n for n in sorted(n for n, k in case[d] if k in ("file", "link") and n.endswith(extension))]
    twice = case["configpath"] in SITE
    want = pick("site", ".pre") + ([] if twice else pick("default", ".pre") + pick("default", ".cf")) + pick("site", ".cf")
    want += {"prefs/user_prefs": ["prefs/user_prefs"], "prefs/link": ["prefs/link"], "~/.spamassassin/user_prefs": ["home/.spamassassin/user_prefs"]}.get(case["prefs"], [])
    info = dict(case=case)
    check_eq(res["files"], want, "configuration files", **info)
    check_eq(res["rules"], sorted("F%d" % scores[p] for p in want), "rules of the files", **info)
    check_eq(res["score"], scores[want[-1]] if want else None, "the last file sets the score", **info)
    note.nontrivial((twice or any(p.startswith("default") for p in want)) and any(p.startswith("site") for p in want))
    note.event("twice" if twice else "both")


FACETS = [Facet("files", case_st, body, quick=400)]
