"""Parent side of the harness: Hypothesis generates, a PyPy worker executes the
code under test, a check's body compares with its oracle."""
import os
import sys
import json
import time
import hashlib
import shutil
import tempfile
import traceback
import subprocess
import multiprocessing
import collections

import hypothesis
from hypothesis import given, settings, strategies as st, HealthCheck, Phase

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYPY = os.environ.get("VERIF_PYPY", "/opt/pypyvenv/bin/python")
NPROC = max(1, min(8, os.cpu_count() or 1))


class Violation(Exception):
    """The property is broken by this case."""


class Inconclusive(Exception):
    """This case could not be decided (wall-clock budget)."""


class HarnessError(Exception):
    """The machinery failed; never a violation."""


class Worker(object):
    def __init__(self, scratch):
        self.scratch = scratch
        self.proc = None

    def start(self):
        env = {k: v for k, v in os.environ.items()
               if k in ("VERIF_REPO", "VERIF_SEED", "VERIF_TIER", "VERIF_WARM")}
        env.update(PATH="/opt/pypyvenv/bin:/usr/local/bin:/usr/bin:/bin", LANG="en_US.UTF-8", TZ="UTC",
                   PYTHONHASHSEED=os.environ.get("VERIF_HASHSEED", "0"), USE_PICKLES="0",
                   VERIF_SCRATCH=self.scratch, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1",
                   PYTHONIOENCODING="utf8")
        self.proc = subprocess.Popen([PYPY, os.path.join(ROOT, "harness", "worker.py")],
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=open(os.path.join(self.scratch, "stderr-%d" % os.getpid()), "ab"),
                                     env=env, cwd=self.scratch)
        hello = json.loads(self.proc.stdout.readline() or b'{"ready": false, "error": "worker died at start"}')
        if not hello["ready"]:
            raise HarnessError("the code under test does not import:\n%s" % hello["error"])

    def raw(self, req):
        if self.proc is None or self.proc.poll() is not None:
            self.start()
        try:
            self.proc.stdin.write((json.dumps(req) + "\n").encode("ascii"))
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
        except BrokenPipeError:
            line = b""
        if not line:
            self.proc = None
            raise HarnessError("worker died on %s" % req.get("fn"))
        return json.loads(line)

    def call(self, fn, arg, **kw):
        req = dict(fn=fn, arg=arg)
        req.update(kw)
        resp = self.raw(req)
        if "ok" in resp:
            return resp["ok"]
        if "raised" in resp:
            raise Violation("%s raised %s\n%s" % (fn, resp["raised"], resp.get("tb", "")))
        if "cpu_timeout" in resp:
            raise Violation("%s used more than %s s of CPU time (signal %s)" % (fn, resp["cpu_timeout"], resp.get("signal")))
        if "died" in resp:
            raise Violation("%s killed the interpreter with signal %s" % (fn, resp["died"]))
        if "wall_timeout" in resp:
            raise Inconclusive("wall clock budget")
        raise HarnessError(json.dumps(resp)[:2000])

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
                self.proc.wait(5)
            except Exception:
                self.proc.kill()
            self.proc = None


class Note(object):
    """What a case turned out to be; filled in by the body."""

    def __init__(self):
        self.nontrivial_ = False
        self.events = []
        self.key = None

    def nontrivial(self, flag=True, key=None):
        if flag:
            self.nontrivial_ = True
        if key is not None:
            self.key = key

    def event(self, *labels):
        self.events.extend(labels)


class Facet(object):
    def __init__(self, name, strategy, body, quick=200, thorough=None, max_shards=8):
        self.name = name
        self.strategy = strategy      # strategy or zero-argument callable; produces JSON-able cases
        self.body = body              # body(case, worker, note)
        self.quick = quick
        self.thorough = thorough or quick * 25
        self.max_shards = max_shards


def canon(case):
    return json.dumps(case, sort_keys=True)


def check_eq(actual, expected, what, **info):
    if actual != expected:
        extra = "".join("\n  %s: %r" % kv for kv in info.items())
        raise Violation("%s: got %r, expected %r%s" % (what, actual, expected, extra))


def check(cond, what, **info):
    if not cond:
        extra = "".join("\n  %s: %r" % kv for kv in info.items())
        raise Violation(what + extra)


def _seed(*parts):
    return int.from_bytes(hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:8], "big")


SHRINK_BUDGET = 45.0


def run_task(prop, facet, shard, n, base_seed, deadline, scratch, stop):
    """Run one shard of one facet; returns a plain dict."""
    stats = dict(facet=facet.name, shard=shard, evaluations=0, nontrivial={}, events=collections.Counter(),
                 samples=[], violation=None, error=None, inconclusive=0, skipped=0)
    worker = Worker(scratch)
    state = dict(best=None, first=None, msg=None, budget_skip=False)
    try:
        worker.start()
        strategy = facet.strategy() if not isinstance(facet.strategy, st.SearchStrategy) else facet.strategy

        @hypothesis.seed(_seed(base_seed, prop, facet.name, shard))
        @settings(max_examples=n, database=None, deadline=None, print_blob=False,
                  suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                  phases=[Phase.generate, Phase.target, Phase.shrink])
        @given(strategy)
        def test(case):
            now = time.time()
            if stop.is_set() or (now > deadline and state["first"] is None):
                stats["skipped"] += 1
                return
            if state["first"] is not None and now - state["first"] > SHRINK_BUDGET:
                return
            note = Note()
            stats["evaluations"] += 1
            try:
                facet.body(case, worker, note)
            except Violation as e:
                text = canon(case)
                if state["first"] is None:
                    state["first"] = now
                if state["best"] is None or len(text) <= len(canon(state["best"])):
                    state["best"] = case
                    state["msg"] = str(e)
                raise
            except Inconclusive:
                stats["inconclusive"] += 1
                return
            for ev in set(note.events):
                stats["events"][ev] += 1
            if note.nontrivial_ and state["first"] is None:
                key = hashlib.sha1((note.key if note.key is not None else canon(case)).encode()).hexdigest()[:16]
                if key not in stats["nontrivial"]:
                    stats["nontrivial"][key] = 1
                    if len(stats["samples"]) < 2:
                        text = canon(case)
                        stats["samples"].append(json.loads(text) if len(text) < 4000 else text[:4000] + "...")

        try:
            test()
        except HarnessError:
            raise
        except BaseException as e:
            if state["best"] is None:
                raise
        if state["best"] is not None:
            # Confirm on a fresh worker, without Hypothesis.
            worker.stop()
            worker = Worker(scratch)
            worker.start()
            try:
                facet.body(state["best"], worker, Note())
                stats["error"] = "failure did not reproduce on a fresh worker: %s\n%s" % (state["msg"], canon(state["best"])[:3000])
            except Violation as e:
                stats["violation"] = dict(case=state["best"], message=str(e))
                stop.set()
    except BaseException:
        stats["error"] = traceback.format_exc()[-4000:]
    finally:
        worker.stop()
    stats["nontrivial"] = list(stats["nontrivial"])
    stats["events"] = dict(stats["events"])
    return stats


def _pool_main(args):
    return run_task(*args)


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == prop]


def corpus_cases(prop):
    d = os.path.join(ROOT, "corpus", prop)
    if os.path.isdir(d):
        for name in sorted(os.listdir(d)):
            if name.endswith(".json"):
                data = json.load(open(os.path.join(d, name)))
                yield name, data["facet"], data["case"]


def write_replay(prop, facet, case, message):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, facet=facet, case=case, message=message)
    name = "%s-%s-%s.json" % (prop, facet, hashlib.sha1(canon(case).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1, sort_keys=True)
    return path


def main(module, argv):
    prop = module.PROPERTY
    facets = {f.name: f for f in module.FACETS}
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    only = [a.split("=", 1)[1] for a in argv if a.startswith("--facet=")]
    t0 = time.time()
    base = tempfile.mkdtemp(prefix="oaverif-", dir="/tmp")
    try:
        if "--replay" in argv:
            data = json.load(open(argv[argv.index("--replay") + 1]))
            w = Worker(base)
            try:
                facets[data["facet"]].body(data["case"], w, Note())
            except Violation as e:
                print(str(e))
                print("VIOLATION property=%s replay=%s" % (prop, argv[argv.index("--replay") + 1]))
                return 1
            finally:
                w.stop()
            print("replay passes")
            return 0
        return _main(module, prop, facets, tier, seed, scale, only, t0, base)
    except HarnessError as e:
        print("HARNESS ERROR: %s" % e, file=sys.stderr)
        return 3
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _main(module, prop, facets, tier, seed, scale, only, t0, base):
    violations, errors = [], []
    known_lines = []
    replayed = 0
    # 1. Saved inputs: known findings and regressions.
    known = load_known(prop)
    w = Worker(base)
    try:
        for k in known:
            if k.get("status") != "open":
                continue
            f = facets[k["facet"]]
            if only and f.name not in only:
                continue
            try:
                f.body(k["case"], w, Note())
                print("note: known finding %s no longer fails" % k["id"])
            except Violation:
                known_lines.append("KNOWN-FINDING: property=%s %s: %s" % (prop, k["id"], k["what"]))
            replayed += 1
        for name, fname, case in corpus_cases(prop):
            if only and fname not in only:
                continue
            if fname not in facets:
                raise HarnessError("corpus file %s names unknown facet %s" % (name, fname))
            replayed += 1
            try:
                facets[fname].body(case, w, Note())
            except Violation as e:
                violations.append((fname, case, str(e)))
                break
            except Inconclusive:
                pass
    finally:
        w.stop()
    # 2. Generation.
    budget = 600 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "3600"))
    deadline = t0 + budget
    results = []
    if not violations:
        tasks = []
        for f in facets.values():
            if only and f.name not in only:
                continue
            n = int((f.quick if tier == "quick" else f.thorough) * scale)
            shards = max(1, min(f.max_shards, NPROC, n // 20 or 1))
            for s in range(shards):
                tasks.append((f, s, n // shards + (1 if s < n % shards else 0)))
        # biggest first within a round-robin over the facets
        tasks.sort(key=lambda t: (t[1], -t[2]))
        ctx = multiprocessing.get_context("fork")
        stop = ctx.Event()
        q = ctx.Queue()
        pending = list(tasks)
        running = {}
        got = 0

        def child(i, t):
            q.put((i, run_task(prop, t[0], t[1], t[2], seed, deadline, base, stop)))

        idx = 0
        while pending or running:
            while pending and len(running) < NPROC and not stop.is_set():
                t = pending.pop(0)
                p = ctx.Process(target=child, args=(idx, t))
                p.start()
                running[idx] = p
                idx += 1
            if stop.is_set():
                pending = []
            if not running:
                break
            try:
                i, r = q.get(timeout=5)
                running.pop(i).join()
                results.append(r)
            except Exception:
                for i, p in list(running.items()):
                    if not p.is_alive():
                        p.join()
                        try:
                            while True:
                                j, r = q.get(timeout=1)
                                running.pop(j, None)
                                results.append(r)
                        except Exception:
                            pass
                        if i in running:
                            running.pop(i)
                            errors.append("a shard process died with %s" % p.exitcode)
    for r in results:
        if r["error"]:
            errors.append("%s/%s: %s" % (r["facet"], r["shard"], r["error"]))
        if r["violation"]:
            violations.append((r["facet"], r["violation"]["case"], r["violation"]["message"]))
    # 3. Evidence.
    per = {}
    nontriv = set()
    samples = []
    for r in sorted(results, key=lambda r: (r["facet"], r["shard"])):
        d = per.setdefault(r["facet"], dict(evaluations=0, nontrivial=0, events=collections.Counter(),
                                            inconclusive=0, skipped=0, _keys=set()))
        d["evaluations"] += r["evaluations"]
        d["inconclusive"] += r["inconclusive"]
        d["skipped"] += r["skipped"]
        d["events"].update(r["events"])
        d["_keys"].update(r["nontrivial"])
        nontriv.update((r["facet"], k) for k in r["nontrivial"])
        if r["shard"] == 0:
            samples.extend(dict(facet=r["facet"], case=s) for s in r["samples"][:2])
    for d in per.values():
        d["nontrivial"] = len(d.pop("_keys"))
        d["events"] = dict(sorted(d["events"].items()))
    evaluations = sum(r["evaluations"] for r in results) + replayed
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(nontriv), rule=module.RULE,
                            samples=samples[:12], facets=per, replayed_saved_cases=replayed,
                            known_findings_reconfirmed=len(known_lines)),
              assumptions=list(getattr(module, "ASSUMPTIONS", [])),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(ROOT, "evidence", "%s.json" % prop))
    for line in known_lines:
        print(line)
    for name, d in sorted(per.items()):
        print("%s %s: %d cases, %d distinct non-trivial%s%s  %s" % (
            prop, name, d["evaluations"], d["nontrivial"],
            ", %d skipped" % d["skipped"] if d["skipped"] else "",
            ", %d inconclusive" % d["inconclusive"] if d["inconclusive"] else "",
            " ".join("%s=%d" % kv for kv in d["events"].items()) if os.environ.get("VERIF_EVENTS") else ""))
    if violations:
        violations.sort(key=lambda v: len(canon(v[1])))
        fname, case, message = violations[0]
        path = write_replay(prop, fname, case, message)
        print("-- facet %s\n%s\n-- case\n%s" % (fname, message, json.dumps(case, indent=1)[:4000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors[:5]:
            print("HARNESS ERROR: %s" % e, file=sys.stderr)
        return 3
    if not only and evaluations == replayed:
        print("HARNESS ERROR: nothing was generated", file=sys.stderr)
        return 3
    print("%s ok: %d cases, %d distinct non-trivial, %.1f s" % (prop, evaluations, len(nontriv), time.time() - t0))
    return 0
