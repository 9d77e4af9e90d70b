"""Small entry points."""


def charsets(arg):
    import oa.locales
    return [bool(oa.locales.charset_ok_for_locales(c, list(l))) for c, l in arg["queries"]]


def config_files(arg):
    """arg: trees {dir: [[name, kind, text]]}, site, config, prefs (as written on the command line)."""
    import os

    import oa.config
    import oa.rules.parser
    base = os.getcwd()
    os.environ["HOME"] = os.path.join(base, "home")
    for d, entries in arg["trees"].items():
        os.makedirs(os.path.join(base, d))
        for name, kind, text in entries:
            path = os.path.join(base, d, name)
            if kind == "dir":
                os.makedirs(os.path.join(path, "inner.cf"))
            elif kind == "dangling":
                os.symlink(os.path.join(base, "nowhere"), path)
            elif kind == "link":
                os.makedirs(os.path.join(base, "linked"), exist_ok=True)
                target = os.path.join(base, "linked", d + name)
                with open(target, "w") as f:
                    f.write(text)
                os.symlink(target, path)
            else:
                with open(path, "w") as f:
                    f.write(text)
    os.symlink(os.path.join(base, "site"), os.path.join(base, "alias"))
    full = [p if p is None or p.startswith("~") or not arg["absolute"] else os.path.join(base, p) for p in (arg["config"], arg["site"], arg["prefs"])]
    got = list(oa.config.get_config_files(*(full if full[2] is not None or arg["three"] else full[:2])))
    out = {"files": [os.path.relpath(os.path.join(os.path.realpath(os.path.dirname(os.path.join(base, p))), os.path.basename(p)), base) for p in got]}
    ruleset = oa.rules.parser.parse_pad_rules(got).get_ruleset()
    rules = dict(ruleset.not_checked, **ruleset.checked)
    out["rules"] = sorted(n for n in rules if n.startswith("F"))
    out["score"] = rules["SHARED"].score if "SHARED" in rules else None
    return out
