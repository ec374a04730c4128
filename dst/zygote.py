"""Separate interpreters for multi-session runs.

Each is a real python process started with its own settings (hash seed, optimisation, locale, time zone, working
directory) that loads the package once and then forks one pristine child per session.  Requests and the session's
messages travel over a unix socket in a scratch directory; closing its stdin ends it.
"""
import os, pickle, select, shutil, signal, socket, struct, subprocess, sys, tempfile, time
from . import engine

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SETTINGS = [
    dict(env=dict(PYTHONHASHSEED="0", TZ="UTC", LC_ALL="C"), args=[]),
    dict(env=dict(PYTHONHASHSEED="4242", TZ="Asia/Tokyo", LC_ALL="C.UTF-8"), args=["-O"]),
    dict(env=dict(PYTHONHASHSEED="7", TZ="America/New_York", PYTHONUTF8="1"), args=["-X", "dev"]),
    dict(env=dict(PYTHONHASHSEED="99999", PYTHONMALLOC="malloc"), args=["-B", "-s"]),
]


def send(s, x):
    d = pickle.dumps(x, protocol=4)
    s.sendall(struct.pack("I", len(d)) + d)


def recv(s, timeout):
    def need(n):
        b = b""
        while len(b) < n:
            if not select.select([s], [], [], timeout)[0]:
                raise TimeoutError("session does not answer")
            d = s.recv(n - len(b))
            if not d:
                return None
            b += d
        return b
    h = need(4)
    if h is None:
        return None
    d = need(struct.unpack("I", h)[0])
    return None if d is None else pickle.loads(d)


class Zygotes:
    def __init__(self, module, func):
        self.dir = tempfile.mkdtemp(prefix="dst-zyg-")
        self.owner = os.getpid()
        self.procs = []
        for i, c in enumerate(SETTINGS):
            env = dict(os.environ, **c["env"])
            self.procs.append(subprocess.Popen(
                [sys.executable] + c["args"] + ["-c", "import sys; sys.path.insert(0, %r); from dst.zygote import serve; serve(%r, %r, %r)" % (
                    VERIF, self.path(i), module, func)],
                stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=self.dir if i % 2 else VERIF))
        engine.CLEANUP.append(self.close)
        end = time.monotonic() + 120
        for i in range(len(SETTINGS)):
            while not os.path.exists(self.path(i)):
                if time.monotonic() > end or self.procs[i].poll() is not None:
                    raise RuntimeError("interpreter %d did not start" % i)
                time.sleep(.05)

    def path(self, i):
        return os.path.join(self.dir, "z%d" % i)

    def session(self, i, request, timeout=120):
        """-> list of messages the session sent before it ended (its last one is ("end", ...) unless it crashed)."""
        s = socket.socket(socket.AF_UNIX)
        s.connect(self.path(i % len(SETTINGS)))
        send(s, request)
        out = []
        while True:
            m = recv(s, timeout)
            if m is None:
                break
            out.append(m)
        s.close()
        return out

    def close(self):
        if os.getpid() != self.owner:
            return
        for p in self.procs:
            try:
                p.stdin.close()
                p.kill()
                p.wait()
            except OSError:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)


def serve(path, module, func):
    from . import main
    import importlib, gc, traceback
    main.booted()
    fn = getattr(importlib.import_module(module), func)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path + ".tmp")
    srv.listen(64)
    os.rename(path + ".tmp", path)
    while True:
        rd, _, _ = select.select([srv, 0], [], [])
        if 0 in rd and not os.read(0, 1):
            os._exit(0)
        if srv not in rd:
            continue
        c, _ = srv.accept()
        if os.fork() == 0:
            srv.close()
            os.close(0)
            gc.disable()
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            try:
                fn(recv(c, 60), lambda m: send(c, m))
            except BaseException:
                try:
                    send(c, ("error", traceback.format_exc()))
                except BaseException:
                    pass
            os._exit(0)
        c.close()
