"""Run the daemon script as real processes on the loopback interface."""
import os
import shutil
import signal
import socket
import subprocess
import tempfile
import time

from harness.core import PYPY, REPO, check

START = 60.0
LIMIT = 20.0


def environment():
    env = {k: v for k, v in os.environ.items() if k in ("LD_LIBRARY_PATH",)}
    env.update(PATH="/opt/pypyvenv/bin:/usr/local/bin:/usr/bin:/bin", LANG="en_US.UTF-8", TZ="UTC", PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", HOME="/nonexistent", PYTHONHASHSEED="0")
    return env


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    return port


def session_of(pid):
    """All live processes of the session of pid."""
    out = []
    try:
        sid = os.getsid(pid)
    except OSError:
        return out
    return members(sid)


def members(sid):
    out = []
    for name in os.listdir("/proc"):
        if name.isdigit():
            try:
                with open("/proc/%s/stat" % name) as f:
                    fields = f.read().rpartition(")")[2].split()
            except OSError:
                continue
            if int(fields[3]) == sid and fields[0] not in "ZX":
                out.append(int(name))
    return out


def sockets():
    with open("/proc/net/tcp") as f:
        for line in f.read().splitlines()[1:]:
            f = line.split()
            yield int(f[1].split(":")[1], 16), int(f[2].split(":")[1], 16), f[3], int(f[4].split(":")[1], 16), f[9]


class Client(object):
    def __init__(self, port):
        self.sock = socket.create_connection(("127.0.0.1", port), timeout=LIMIT)
        self.local = self.sock.getsockname()[1]
        self.port = port

    def send(self, text):
        self.sock.sendall(text.encode("latin-1"))

    def taken(self):
        """Wait until a worker has accepted the connection and read what was sent."""
        end = time.monotonic() + LIMIT
        while time.monotonic() < end:
            for local, remote, state, queued, inode in sockets():
                if local == self.port and remote == self.local:
                    if inode != "0" and queued == 0:
                        return True
            time.sleep(0.01)
        return False

    def finish(self):
        """Everything the daemon sends, or None if the connection is reset."""
        chunks = []
        try:
            self.sock.shutdown(socket.SHUT_WR)
            while True:
                data = self.sock.recv(65536)
                if not data:
                    return b"".join(chunks).decode("latin-1")
                chunks.append(data)
        except socket.timeout:
            return "timeout after %r" % b"".join(chunks)
        except OSError:
            return None
        finally:
            self.sock.close()


class Daemon(object):
    """The script with the given options; paths are given relative to its directory."""

    def __init__(self, site, prefork=None, detach=True, relative=True, args=()):
        self.base = tempfile.mkdtemp(prefix="oadaemon-", dir="/tmp")
        os.mkdir(os.path.join(self.base, "site"))
        self.detach = detach
        self.prefork = prefork
        self.put(site)
        self.pid = self.sid = None
        for attempt in range(3):
            self.port = free_port()
            where = "" if relative else self.base + "/"
            argv = [PYPY, os.path.join(REPO, "scripts", "oad.py"), "-i", "127.0.0.1", "-p", str(self.port), "-C", where + "site", "-S", where + "site", "-r", where + "oad.pid", "--log-file", where + "oad.log"]
            argv += ["-d"] * detach + (["--prefork", str(prefork)] if prefork is not None else []) + list(args)
            self.proc = subprocess.Popen(argv, cwd=self.base, env=environment(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(os.path.join(self.base, "stderr"), "ab"), start_new_session=True)
            if self._up():
                return
            self.kill()
        check(False, "the daemon does not start", log=self.log(), options=argv[2:])

    def put(self, text):
        path = os.path.join(self.base, "site", "10.cf")
        with open(path + ".new", "wb") as f:
            f.write(text.encode("latin-1"))
        os.rename(path + ".new", path)

    def log(self):
        out = ""
        for name in ("oad.log", "stderr"):
            try:
                with open(os.path.join(self.base, name), "rb") as f:
                    out += f.read().decode("utf8", "replace")[-3000:]
            except OSError:
                pass
        return out

    def _up(self):
        end = time.monotonic() + START
        while time.monotonic() < end:
            if not self.detach:
                self.pid = self.sid = self.proc.pid
                if self.proc.poll() is not None:
                    return False
            elif self.proc.poll() is not None and self.pid is None:
                try:
                    with open(os.path.join(self.base, "oad.pid")) as f:
                        pid = int(f.read())
                    with open("/proc/%d/cmdline" % pid) as f:
                        mine = "oad.py" in f.read()
                    sid = os.getsid(pid)
                    if not mine or sid == os.getsid(0):
                        return False
                    self.pid, self.sid = pid, sid
                except (OSError, ValueError):
                    time.sleep(0.02)
                    if self.proc.returncode or time.monotonic() > end - START + 20:
                        return False
                    continue
            if self.pid is not None and self.detach and not os.path.isdir("/proc/%d" % self.pid):
                return False
            if self.pid is not None and any(s[0] == self.port and s[2] == "0A" for s in sockets()):
                # all workers have been forked
                n = 1 + (self.prefork if (self.prefork or 0) > 1 else 0)
                if len(members(self.sid)) >= n:
                    return True
            time.sleep(0.02)
        return False

    def script(self, action):
        argv = [PYPY, os.path.join(REPO, "scripts", "oad.py"), "-C", "site", "-S", "site", "-r", "oad.pid", "--log-file", "action.log", action]
        return subprocess.run(argv, cwd=self.base, env=environment(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=START).returncode

    def signal(self, number):
        os.kill(self.pid, number)

    def connect(self):
        return Client(self.port)

    def gone(self, seconds=LIMIT):
        end = time.monotonic() + seconds
        while time.monotonic() < end:
            if not self.detach:
                self.proc.poll()
            if not members(self.sid):
                return True
            time.sleep(0.02)
        return False

    def kill(self):
        for sid in {self.sid, self.proc.pid if self.proc else None} - {None}:
            for pid in members(sid):
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
        if self.proc:
            try:
                self.proc.wait(10)
            except subprocess.TimeoutExpired:
                pass
        self.pid = self.sid = None

    def close(self):
        self.kill()
        shutil.rmtree(self.base, ignore_errors=True)
