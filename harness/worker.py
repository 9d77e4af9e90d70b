"""Runs under the interpreter of the code under test (PyPy).

Reads one JSON request per line on fd 0: {"fn": "module.function", "arg": ..., "fork": bool, "cpu": seconds, "wall": seconds}
and writes one JSON response per line on the original stdout.  With fork (the
default) the call runs in a child forked from this process, which has imported
the package but never used it: no state of one case can reach another.
"""
import sys
import os
import json
import signal
import select
import shutil
import resource
import traceback
import importlib
import warnings
import logging

REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = os.environ["VERIF_SCRATCH"]
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
os.environ["HOME"] = SCRATCH
os.environ["USER"] = "verif"
os.environ["LOGNAME"] = "verif"

# Responses go to a private fd; whatever the code under test prints does not mix with them.
OUT = os.fdopen(os.dup(1), "wb", 0)
devnull = os.open(os.devnull, os.O_RDWR)
os.dup2(devnull, 1)
sys.stdout = os.fdopen(1, "w")

import socket
import random
import time

FIXED_TIME = 1500000000.0  # 2017-07-14 02:40:00 UTC


class _NoNetwork(OSError):
    pass


def _blocked(*args, **kwargs):
    raise _NoNetwork("network access blocked by the harness")


socket.create_connection = _blocked
socket.socket.connect = _blocked
socket.socket.connect_ex = _blocked
socket.socket.sendto = _blocked
socket.getaddrinfo = _blocked
socket.gethostbyname = _blocked
socket.gethostbyaddr = _blocked
socket.getfqdn = lambda name="": "scanner.example.net"
socket.gethostname = lambda: "scanner.example.net"

logging.getLogger("oa-logger").setLevel(logging.CRITICAL + 10)
logging.getLogger("oa-logger").addHandler(logging.NullHandler())
logging.raiseExceptions = False

try:
    import oa
    if not os.path.abspath(oa.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise ImportError("oa imported from %s, not %s" % (oa.__file__, REPO))
    import oa.rules.parser, oa.message, oa.config, oa.server, oa.errors
    IMPORT_ERROR = None
    for _m in sorted(os.listdir(os.path.join(REPO, "oa", "plugins"))):
        if _m.endswith(".py") and _m != "__init__.py":
            try:
                importlib.import_module("oa.plugins." + _m[:-3])
            except Exception:
                pass
    for _m in ("oa.db.bayes.sqlalchemy", "html.parser", "email.mime.application"):
        try:
            importlib.import_module(_m)
        except Exception:
            pass
except Exception:
    IMPORT_ERROR = traceback.format_exc()

_MODULES = {}
for _m in sorted(os.listdir(os.path.join(HERE, "sut"))):
    if _m.endswith(".py") and not _m.startswith("_") and IMPORT_ERROR is None:
        _MODULES[_m[:-3]] = importlib.import_module("sut." + _m[:-3])


def reset_clock_and_random():
    random.seed(12345)


def run(fn, arg):
    mod, name = fn.split(".")
    try:
        value = getattr(_MODULES[mod], name)(arg)
        return {"ok": value}
    except BaseException as e:  # reported, never swallowed
        return {"raised": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-6000:]}


_real_time = time.time


def child_setup(cpu, casedir):
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGXCPU, signal.SIG_DFL)
    os.chdir(casedir)
    os.environ["HOME"] = casedir
    time.time = lambda: FIXED_TIME
    reset_clock_and_random()


WARM_MSG = """Received: from a.example.com (a.example.com [8.7.6.5]) by mx.example.org (Postfix) with ESMTP id ABCDEF for <r@example.org>; Mon, 1 Jan 2017 00:00:00 +0000
Received: from [1.2.3.4] by x with HTTP; Mon, 1 Jan 2017 00:00:00 +0000
From: "A B" <a@example.com>
To: b@example.com
Subject: =?utf-8?q?x?=
Content-Type: multipart/alternative; boundary=xx

--xx
Content-Type: text/html

<html><body><a href="http://example.com/x">y</a> text http://www.example.org/</body></html>
--xx--
"""


def warm():
    """Fill the cache of compiled patterns of the standard library, with what one
    scan in a throw-away child compiled; nothing else of that scan comes back."""
    import re
    re._MAXCACHE = 8192
    warmdir = os.path.join(SCRATCH, "w%d-warm" % os.getpid())
    os.mkdir(warmdir)
    try:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                child_setup(60, warmdir)
                text = "report x _SCORE_ _SUMMARY_\nbody A /x/\nmeta B A && !A\nheader C From:addr =~ /x/\nadd_header all X _YESNO_\n" + "".join(
                    "loadplugin oa.plugins.%s\n" % x for x in ("header_eval.HeaderEval", "uri_detail.URIDetailPlugin", "wlbl_eval.WLBLEvalPlugin", "uri_eval.URIEvalPlugin", "free_mail.FreeMail"))
                want = ["evaluated", "report", "adjusted", "headers", "matched_report", "relays", "tags"]
                try:
                    _MODULES["core"].scan({"files": [["a.cf", text]], "msgs": [WARM_MSG], "want": want})
                except BaseException:
                    pass
                keys = [[k[1], int(k[2])] for k in list(re._cache) if k[0] is str]
                data = json.dumps(keys).encode("ascii")
                while data:
                    data = data[os.write(w, data[:65536]):]
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        for pattern, flags in json.loads(data.decode("ascii")):
            try:
                re.compile(pattern, flags)
            except Exception:
                pass
    except Exception:
        pass
    shutil.rmtree(warmdir, ignore_errors=True)


def warm_sql():
    """Let the JIT compile SQLAlchemy in this process, with a model and a database of its own."""
    try:
        from sqlalchemy import Column, Integer, LargeBinary, String, create_engine
        from sqlalchemy.ext.declarative import declarative_base
        from sqlalchemy.orm import sessionmaker
        base = declarative_base()

        class Thing(base):
            __tablename__ = "thing"
            id = Column("id", Integer, primary_key=True)
            key = Column("key", LargeBinary(5), primary_key=True)
            name = Column("name", String(20))
            n = Column("n", Integer)
        engine = create_engine("sqlite://")
        base.metadata.create_all(engine)
        session = sessionmaker(bind=engine)()
        for i in range(1500):
            key = b"%05d" % (i % 500)
            thing = session.query(Thing).filter(Thing.key == key).first()
            if thing is None:
                thing = Thing(id=0, key=key, name="x%d" % i, n=0)
                session.add(thing)
            thing.n += 1
            session.query(Thing.key, Thing.n).filter(Thing.key == key).first()
            if i % 25 == 0:
                session.query(Thing).filter(Thing.key == key).update({"n": i})
                session.commit()
        session.close()
        engine.dispose()
    except Exception:
        pass


_counter = [0]


def forked(req):
    _counter[0] += 1
    casedir = os.path.join(SCRATCH, "w%d-%d" % (os.getpid(), _counter[0]))
    os.mkdir(casedir)
    cpu = int(req.get("cpu", 40))
    wall = float(req.get("wall", 300))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            child_setup(cpu, casedir)
            data = json.dumps(run(req["fn"], req["arg"])).encode("ascii")
            view = memoryview(data)
            while view:
                n = os.write(w, view[:65536])
                view = view[n:]
        except BaseException:
            try:
                os.write(2, traceback.format_exc().encode("utf8", "replace"))
            finally:
                os._exit(97)
        os._exit(0)
    os.close(w)
    chunks = []
    end = _real_time() + wall
    timed_out = False
    while True:
        left = end - _real_time()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        c = os.read(r, 1 << 20)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    if timed_out:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(casedir, ignore_errors=True)
    if timed_out:
        return {"wall_timeout": wall}
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig in (signal.SIGXCPU, signal.SIGKILL):
            return {"cpu_timeout": cpu, "signal": sig}
        return {"died": sig}
    data = b"".join(chunks)
    try:
        return json.loads(data.decode("ascii"))
    except ValueError:
        return {"harness_error": "bad child output, status %r: %r" % (status, data[:200])}


def main():
    inp = os.fdopen(0, "rb", 0)
    buf = b""
    OUT.write((json.dumps({"ready": IMPORT_ERROR is None, "error": IMPORT_ERROR}) + "\n").encode())
    import io
    if IMPORT_ERROR is None:
        warm()
        if os.environ.get("VERIF_WARM") == "sql":
            warm_sql()
    reader = io.BufferedReader(io.FileIO(0, closefd=False))
    for line in reader:
        req = json.loads(line.decode("ascii"))
        if req.get("fork", True):
            resp = forked(req)
        else:
            resp = run(req["fn"], req["arg"])
        OUT.write((json.dumps(resp) + "\n").encode("ascii"))


main()
