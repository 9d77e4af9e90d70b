#!/usr/bin/env python3
"""Make, and verify, planted bugs.

plant.py make SPEC.py ...   write /verif/seeded/<id>/ from a spec (a Python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)
plant.py verify ID ...      demo on clean and patched copies of /repo, stable tests on the patched copy
plant.py checks ID ...      run the property's check on a patched copy
"""
import json, os, shutil, subprocess, sys
SB = os.environ.get("PLANT_SB", "/tmp/sb")
VP, SEED = SB + "vp", "/verif/seeded"
REPO = os.environ.get("PLANT_REPO", "/repo")
PRE = '''import os, sys, tempfile, shutil
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
scratch = tempfile.mkdtemp()
os.environ["HOME"] = scratch


def load(conf, **kw):
    import oa.rules.parser
    d = tempfile.mkdtemp(dir=scratch)
    paths = []
    for i, text in enumerate([conf] if isinstance(conf, str) else conf):
        p = os.path.join(d, "%d.cf" % i)
        with open(p, "w") as f:
            f.write(text)
        paths.append(p)
    return oa.rules.parser.parse_pad_rules(paths, **kw).get_ruleset()


def put(path, text):
    if not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    with open(path, "w") as f:
        f.write(text)


def scan(ruleset, raw):
    import oa.message
    msg = oa.message.Message(ruleset.ctxt, raw)
    ruleset.match(msg)
    return msg


def hits(msg):
    return [n for n, r in msg.rules_checked.items() if r]


try:
%s
finally:
    shutil.rmtree(scratch, ignore_errors=True)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def fresh():
    shutil.rmtree(SB, ignore_errors=True)
    sh("cp -a %s %s" % (REPO, SB))


def demo(i):
    return sh("LANG=en_US.UTF-8 timeout 300 bash %s/%s/demo.sh" % (SEED, i), cwd=SB)


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    fresh()
    for f, old, new in ns["EDITS"]:
        p = os.path.join(SB, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(SEED, ns["ID"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.check_output("git diff", shell=True, cwd=SB, universal_newlines=True))
    open(os.path.join(d, "demo.py"), "w").write(PRE.replace("%s", "\n".join(("    " + l).rstrip() for l in ns["DEMO"].strip("\n").split("\n"))))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/pypyvenv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r = demo(ns["ID"])
    sh("git checkout -- .", cwd=SB)
    c = demo(ns["ID"])
    print(ns["ID"], "clean", c.returncode, "patched", r.returncode, "OK" if c.returncode == 0 and r.returncode else "BAD\n" + c.stdout[-1500:] + "\n--\n" + r.stdout[-800:], flush=True)


def verify(i, tests=True):
    fresh()
    c = demo(i)
    a = sh("git apply %s/%s/patch.diff" % (SEED, i), cwd=SB)
    r = demo(i)
    out = "clean %d apply %d patched %d" % (c.returncode, a.returncode, r.returncode)
    if tests and a.returncode == 0:
        shutil.rmtree(VP, ignore_errors=True)
        sh("cp -a /opt/vp VP && sed -i 's#/repo#SB#g; s#/opt/vp#VP#g' VP/*.sh VP/plugins/*.py VP/*.py && sed -i 's#PYTHONPATH=#PYTHONPATH=SB:#' VP/test.sh".replace("VP", VP).replace("SB", SB))
        sh("flock /tmp/plant.lock bash %s/test.sh %s/out.json > %s/log 2>&1" % (VP, VP, VP))  # the daemon tests use a fixed port
        b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        try:
            p = set(json.load(open(VP + "/out.json"))["passed"])
            out += " stable-missing %d %s" % (len(b - p), sorted(b - p)[:4])
        except Exception as e:
            out += " tests failed %s" % e
    print(i, out, flush=True)


def checks(i):
    """In a patched copy; /repo itself stays as it is."""
    m = json.load(open("%s/%s/meta.json" % (SEED, i)))
    fresh()
    a = sh("git apply %s/%s/patch.diff" % (SEED, i), cwd=SB)
    r = sh("cd /verif && VERIF_REPO=%s VERIF_SEED=%s VERIF_TIER=quick timeout 900 ./check %s" % (SB, os.environ.get("VERIF_SEED", "1"), m["property"]))
    caught = r.returncode == 1 and any(l.startswith("VIOLATION") for l in r.stdout.splitlines())
    with open("/verif/tools/seeded_results.json.lock", "w") as lock:
        import fcntl
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = "/verif/tools/seeded_results.json"
        res = json.load(open(p)) if os.path.exists(p) else {}
        res[i] = {"property": m["property"], "caught": caught}
        json.dump(res, open(p, "w"), indent=1, sort_keys=True)
    print(i, m["property"], "apply", a.returncode, "exit", r.returncode, [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")], r.stdout.splitlines()[-1][:200] if r.stdout else "", flush=True)


for x in sys.argv[2:]:
    globals()[sys.argv[1]](x)
