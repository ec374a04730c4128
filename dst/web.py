"""Properties of the browser front end: plans are generated, run and shrunk by a node process (web/worker.js) that loads the
front end's real sources, bundled from the repository's current tree, into a simulated page."""
import json, os, select, shutil, subprocess, tempfile, time
from . import engine

WEB = os.path.join(engine.VERIF, "web")
REAL = ["frontend/packages/%s/src (the repository's TypeScript, bundled by esbuild from the current tree)"]
LIBS = ["d3 v4 + d3-jetpack", "mathjs", "chroma.js", "quaternion", "underscore (the copies shipped in the repository)"]
STUBS = ["DOM, events, timers and focus: simulated page in one process (web/dom.js), every insertion can fail",
         "uuid, Math.random, Date.now: seeded", "console: discarded"]


class Node:
    """One node process, one request at a time."""

    def __init__(self, bundles):
        self.p = subprocess.Popen(["node", "--stack-size=1500", "--max-old-space-size=1500", os.path.join(WEB, "worker.js"), bundles],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=WEB)
        self.buf = bytearray()

    def ask(self, q, timeout=60):
        self.p.stdin.write(json.dumps(q).encode() + b"\n")
        self.p.stdin.flush()
        end = time.monotonic() + timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                self.close()
                raise engine.Broken("hang", "the page makes no progress, ended after %d s" % timeout)
            d = os.read(fd, 1 << 20)
            if not d:
                self.close()
                raise EOFError
            self.buf += d
        k = self.buf.index(b"\n")
        line = bytes(self.buf[:k])
        del self.buf[:k + 1]
        return json.loads(line)

    def close(self):
        self.p.kill()
        self.p.wait()


class WebProp:
    browser = True
    level = "exploration"
    bundle = "core"
    package = "attitude"
    per_chunk = 60
    chunks_quick = 48
    chunks_thorough = 2400
    assumptions = ["the simulated DOM and the stand-ins for React and the widget libraries behave like the real ones in what the front end uses of them",
                   "JavaScript runs to completion: the page's schedule is the order of events, timers, renders and callbacks"]
    _nodes = {}

    def __init__(self):
        self.real = [REAL[0] % p for p in self.package.split()] + LIBS
        self.stubs = STUBS + list(getattr(self, "more_stubs", []))

    def setup(self):
        d = tempfile.mkdtemp(prefix="dst-web-")
        engine.CLEANUP.append(lambda: (self.stop(), shutil.rmtree(d, ignore_errors=True)))
        self.bundles = os.path.join(d, "bundles.json")
        p = subprocess.run(["node", os.path.join(WEB, "build.js"), self.bundle, self.bundles], cwd=WEB, capture_output=True, text=True, timeout=120)
        if p.returncode:
            raise engine.HarnessError("the front end does not bundle: " + p.stderr[-2000:])

    def stop(self):
        n = self._nodes.pop(os.getpid(), None)
        if n:
            n.close()

    def ask(self, q, timeout=60):
        n = self._nodes.get(os.getpid())
        if n is None or n.p.poll() is not None:
            n = self._nodes[os.getpid()] = Node(self.bundles)
        try:
            out = n.ask(dict(q, prop=self.id), timeout)
        except (EOFError, BrokenPipeError):
            raise engine.HarnessError("the page's process ended")
        if "error" in out:
            raise engine.HarnessError(out["error"])
        return out

    # what the engine calls
    def reference(self, key):
        return None

    def make_pool(self, rng, tier):
        return tier

    def gen(self, rng, env):
        depth = 1 if env.pool == "quick" else rng.choice([1, 1, 2, 4])
        return self.ask(dict(cmd="gen", seed="%016x" % rng.getrandbits(64), depth=depth))["plan"]

    def shrink(self, plan):
        return self.ask(dict(cmd="shrink", plan=plan))["plans"]

    def execute(self, plan):
        out = self.ask(dict(cmd="run", plan=plan))
        v = out["violation"]
        return dict(violation=v, stats=out["stats"], key=out["key"], log=out["log"], nontrivial=out["stats"].get("comparisons", 0) > 0)

    def simulated_time(self, s):
        return "discrete: one event per call, DOM event, timer or render of the simulated page; %d events" % int(s.get("events", 0))
