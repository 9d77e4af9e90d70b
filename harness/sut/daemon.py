"""Drive the daemon's request handler without a network."""
import io
import os
import random

import oa.server
import oa.config
from sut.core import exc, last_frames


class _Raw(io.RawIOBase):
    """Delivers bytes in given fragment sizes, then end of stream."""

    def __init__(self, data, sizes):
        self._data = data
        self._sizes = list(sizes) or [len(data)]
        self._i = 0

    def readable(self):
        return True

    def readinto(self, b):
        if not self._data:
            return 0
        n = max(1, self._sizes[self._i % len(self._sizes)])
        self._i += 1
        n = min(n, len(b), len(self._data))
        b[:n] = self._data[:n]
        self._data = self._data[n:]
        return n


class FakeRequest(object):
    def __init__(self, data, sizes=()):
        self.data = data
        self.sizes = sizes
        self.sent = []

    def makefile(self, mode="rb", buffering=-1, **kw):
        if "w" in mode:
            req = self

            class W(io.RawIOBase):
                def writable(self):
                    return True

                def write(self, b):
                    req.sent.append(bytes(b))
                    return len(b)
            return W() if buffering == 0 else io.BufferedWriter(W())
        return io.BufferedReader(_Raw(self.data, self.sizes), 8192 if buffering in (-1, None, 0, 1) else buffering)

    def sendall(self, b, *a):
        self.sent.append(bytes(b))

    def send(self, b, *a):
        self.sent.append(bytes(b))
        return len(b)

    def settimeout(self, *a):
        pass

    def setsockopt(self, *a):
        pass

    def fileno(self):
        return 0

    def shutdown(self, *a):
        pass

    def close(self):
        pass


class _Server(oa.server.Server):
    """The real server without the listening socket."""

    def _setup_socket(self):
        self.socket = None


def make_server(site, config=(), base="srv", paranoid=False):
    """site/config: [[name, text]] written to two directories."""
    dirs = []
    for sub, files in (("site", site), ("conf", config)):
        d = os.path.join(os.getcwd(), base, sub)
        if not os.path.isdir(d):
            os.makedirs(d)
        for name in os.listdir(d):
            os.remove(os.path.join(d, name))
        for name, text in files:
            with open(os.path.join(d, name), "wb") as f:
                f.write(text.encode("latin-1"))
        dirs.append(d)
    return _Server(("127.0.0.1", 0), dirs[0], dirs[1] if config else dirs[0], paranoid=paranoid)


def request(server, data, sizes=()):
    """data: bytes. Returns (reply bytes as latin-1, exception or None)."""
    random.seed(777)
    req = FakeRequest(data, sizes)
    err = None
    tb = None
    try:
        server.finish_request(req, ("127.0.0.1", 12345))
    except Exception as e:
        err = exc(e)
        tb = last_frames()
    return {"reply": b"".join(req.sent).decode("latin-1"), "exc": err, "tb": tb}


def session(arg):
    """arg: {files, config, lazy, requests: [{data (latin-1), sizes} | {reload: [[files]]}]}."""
    oa.config.LAZY_MODE = arg.get("lazy", True)
    server = make_server(arg["files"], arg.get("config", ()))
    out = []
    for r in arg["requests"]:
        out.append(request(server, r["data"].encode("latin-1"), r.get("sizes", ())))
    return {"replies": out}


def cli(arg):
    """Run scripts/match.py's main(): {files, msg (latin-1 = bytes), runs: [[args]], how}."""
    import importlib
    import sys
    import scripts.match as match
    from sut.core import write_files
    out = []
    for extra in arg["runs"]:
        paths = write_files(arg["files"])
        base = os.path.dirname(paths[0])
        name = os.path.join(base, "message.eml")
        data = arg["msg"].encode("latin-1")
        with open(name, "wb") as f:
            f.write(data)
        argv = ["match.py", "-C", base, "-S", base, "-p", os.path.join(base, "none")] + list(extra)
        if arg["how"] == "file":
            argv.append(name)
        old = sys.argv, sys.stdin, sys.stdout
        buf = io.BytesIO()
        sys.argv = argv
        sys.stdin = io.TextIOWrapper(io.BytesIO(data), encoding="utf8")
        sys.stdout = io.TextIOWrapper(buf, encoding="utf8", newline="\n")
        err = tb = None
        random.seed(777)
        try:
            match.main()
        except (Exception, SystemExit) as e:
            err, tb = exc(e), last_frames()
        finally:
            sys.stdout.flush()
            sys.stdout.detach()
            sys.argv, sys.stdin, sys.stdout = old
        out.append({"out": buf.getvalue().decode("utf8"), "exc": err, "tb": tb})
    return out


def tell(arg):
    """Like session, with the hook calls of every request."""
    from sut import recorder
    oa.config.LAZY_MODE = True
    recorder.watch()
    server = make_server(arg["files"], arg.get("config", ()))
    out = []
    for r in arg["requests"]:
        del recorder.CALLS[:]
        reply = request(server, r["data"].encode("latin-1"), r.get("sizes", ()))
        reply["calls"] = list(recorder.CALLS)
        out.append(reply)
    return {"replies": out}


def users(arg):
    """History of requests by users: {files, ops: [{op: prefs|site|req, ...}]}."""
    import shutil
    oa.config.LAZY_MODE = arg.get("lazy", True)
    home = os.path.join(os.getcwd(), "home")
    shutil.rmtree(home, ignore_errors=True)
    original = oa.config.get_userprefs_path

    def path_of(user):
        path = original(user)
        if path.startswith("/home/"):
            path = os.path.join(home, path[len("/home/"):])
        return path
    oa.config.get_userprefs_path = path_of
    out = []
    try:
        server = make_server(arg["files"])
        for op in arg["ops"]:
            if op["op"] == "prefs":
                d = os.path.join(home, op["user"], ".spamassassin")
                if not os.path.isdir(d):
                    os.makedirs(d)
                f = os.path.join(d, "user_prefs")
                if op["text"] is None:
                    if os.path.exists(f):
                        os.remove(f)
                else:
                    with open(f, "wb") as s:
                        s.write(op["text"].encode("latin-1"))
                out.append(None)
            elif op["op"] == "site":
                if op.get("files") is not None:
                    for name in os.listdir(server.sitepath):
                        os.remove(os.path.join(server.sitepath, name))
                    for name, text in op["files"]:
                        with open(os.path.join(server.sitepath, name), "wb") as s:
                            s.write(text.encode("latin-1"))
                server.load_config()
                out.append(None)
            else:
                out.append(request(server, op["data"].replace("@HOME@", home).encode("latin-1")))
    finally:
        oa.config.get_userprefs_path = original
        shutil.rmtree(home, ignore_errors=True)
    return {"replies": out}


def cli_many(arg):
    """Run main() on many messages: {files, tree: [[path, text (latin-1) | None for a directory | "@link"]], stdin, args}."""
    import shutil
    import sys
    import scripts.match as match
    from sut import recorder
    from sut.core import write_files
    recorder.watch()
    del recorder.CALLS[:]
    paths = write_files(arg["files"])
    conf = os.path.dirname(paths[0]) if paths else os.path.join(os.getcwd(), "noconf")
    if not paths and not os.path.isdir(conf):
        os.makedirs(conf)
    base = os.path.join(os.getcwd(), "mails")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    for name, text in arg["tree"]:
        p = os.path.join(base, name)
        if text is None:
            os.makedirs(p)
        elif text == "@dangling":
            os.symlink(os.path.join(base, "nowhere"), p)
        else:
            with open(p, "wb") as f:
                f.write(text.encode("latin-1"))
    old = sys.argv, sys.stdin, sys.stdout, os.getcwd()
    buf = io.BytesIO()
    sys.argv = ["match.py", "-C", conf, "-S", conf, "-p", os.path.join(base, "none")] + arg["args"]
    sys.stdin = io.TextIOWrapper(io.BytesIO(arg["stdin"].encode("latin-1")), encoding="utf8")
    sys.stdout = io.TextIOWrapper(buf, encoding="utf8", newline="\n")
    err = tb = None
    random.seed(777)
    try:
        os.chdir(base)
        match.main()
    except (Exception, SystemExit) as e:
        err, tb = exc(e), last_frames()
    finally:
        os.chdir(old[3])
        sys.stdout.flush()
        sys.stdout.detach()
        sys.argv, sys.stdin, sys.stdout = old[:3]
    return {"out": buf.getvalue().decode("utf8"), "exc": err, "tb": tb, "calls": list(recorder.CALLS)}
