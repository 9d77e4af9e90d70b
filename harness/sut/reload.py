"""Requests, reloads and changes of the files under a generated schedule."""
import os
import shutil
import threading
import time

import oa.config
from sut import daemon, gates
from sut.core import exc, last_frames

STALL = 0.25      # a thread that has control this long waits for another one
LIMIT = 30.0


class Hang(BaseException):
    pass


class Sched(object):
    """One thread runs at a time; who is next at every gate is given."""

    def __init__(self, choices):
        self.cond = threading.Condition()
        self.choices = list(choices) or [0]
        self.i = 0
        self.waiting = {}       # ident -> name
        self.running = None
        self.stamp = 0
        self.end = time.monotonic() + LIMIT
        self.names = {}

    def _pick(self):
        if self.waiting:
            order = sorted(self.waiting.items(), key=lambda t: t[1])
            c = self.choices[self.i % len(self.choices)]
            self.i += 1
            self.running = order[c % len(order)][0]
            self.stamp += 1
            self.cond.notify_all()
        else:
            self.running = None

    def start(self, name):
        self.names[threading.get_ident()] = name
        self.gate(new=True)

    def gate(self, new=False):
        me = threading.get_ident()
        if me not in self.names:
            return
        with self.cond:
            self.waiting[me] = self.names[me]
            if self.running == me or (self.running is None and not self.held):
                self._pick()
            seen, since = self.stamp, time.monotonic()
            while self.running != me:
                self.cond.wait(0.05)
                now = time.monotonic()
                if now > self.end:
                    raise Hang()
                if self.stamp != seen:
                    seen, since = self.stamp, now
                elif now - since > STALL and self.running not in self.waiting and not self.held:
                    # The one that has control waits for a lock, or is done
                    self._pick()
            del self.waiting[me]

    held = True

    def go(self):
        with self.cond:
            self.held = False
            self._pick()

    def stop(self):
        me = threading.get_ident()
        with self.cond:
            self.names.pop(me, None)
            self.waiting.pop(me, None)
            if self.running == me:
                self._pick()


_Base = daemon._Raw


class _Raw(_Base):
    def readinto(self, b):
        gates.gate()
        return _Base.readinto(self, b)


def run(arg):
    """files: {name: [versions]} on disk; operator: [op], requests: [{data, sizes}], choices."""
    oa.config.LAZY_MODE = True
    home = os.path.join(os.getcwd(), "home")
    shutil.rmtree(home, ignore_errors=True)
    for user in arg["users"]:
        os.makedirs(os.path.join(home, user, ".spamassassin"))
    original = oa.config.get_userprefs_path

    def path_of(user):
        path = original(user)
        if path.startswith("/home/"):
            path = os.path.join(home, path[len("/home/"):])
        return path

    def put(path, text):
        with open(path + ".new", "wb") as f:
            f.write(text.replace("@LOOP@", loop).encode("latin-1"))
        os.rename(path + ".new", path)

    loop = os.path.join(os.getcwd(), "loop.cf")
    with open(loop, "w") as f:
        f.write("include loop.cf\n")
    events = []

    class Server(daemon._Server):
        loads = 0

        def load_config(self):
            n = Server.loads
            Server.loads += 1
            events.append(["load", n])
            if n:
                sched.start("load%d" % n)
            ok = False
            try:
                super(Server, self).load_config()
                ok = True
            except Exception:
                if not n:
                    raise
            finally:
                events.append(["loaded", n, ok])
                if n:
                    sched.stop()

    def operator():
        sched.start("operator")
        for op in arg["operator"]:
            sched.gate()
            if op[0] == "site":
                events.append(["writing", op[1]])
                put(site, arg["site"][op[1]])
                events.append(["site", op[1]])
            elif op[0] == "prefs":
                events.append(["editing", op[1], op[2]])
                put(path_of(op[1]), arg["prefs"][op[2]])
                events.append(["prefs", op[1], op[2]])
            else:
                n = Server.loads
                server.reload_handler()
                end = time.monotonic() + 10
                while "load%d" % n not in sched.waiting.values() and time.monotonic() < end:
                    time.sleep(0.0005)
        sched.stop()

    def serve():
        sched.start("server")
        for i, r in enumerate(arg["requests"]):
            sched.gate()
            events.append(["req", i])
            events.append(["reply", i, daemon.request(server, r["data"].encode("latin-1"), r["sizes"])])
        sched.stop()

    raw, daemon._Raw = daemon._Raw, _Raw
    oa.config.get_userprefs_path = path_of
    threads, errors = [], []
    sched = Sched(arg["choices"])
    before = threading.active_count()
    try:
        d = os.path.join(os.getcwd(), "relsite")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        site = os.path.join(d, "10.cf")
        put(site, arg["site"][0])
        for user in arg["users"]:
            put(path_of(user), arg["prefs"][0])
        server = Server(("127.0.0.1", 0), d, d)
        gates.SCHED[0] = sched

        def guard(f):
            def g():
                try:
                    f()
                except BaseException as e:
                    errors.append([exc(e), last_frames()])
                    sched.stop()
            return g
        for f in (operator, serve):
            t = threading.Thread(target=guard(f))
            t.daemon = True
            t.start()
            threads.append(t)
        end = time.monotonic() + 10
        while len(sched.waiting) < 2 and time.monotonic() < end:
            time.sleep(0.0005)
        sched.go()
        for t in threads:
            t.join(LIMIT)
        end = time.monotonic() + LIMIT
        while threading.active_count() > before and time.monotonic() < end:
            time.sleep(0.001)
        done = threading.active_count() <= before
        gates.SCHED[0] = None
        final = []
        if done and not errors:
            for r in arg["final"]:
                final.append(daemon.request(server, r["data"].encode("latin-1"), r["sizes"]))
    finally:
        gates.SCHED[0] = None
        daemon._Raw = raw
        oa.config.get_userprefs_path = original
    return {"events": events, "errors": errors, "done": done, "final": final, "grants": sched.stamp}
