"""The fixture store: the real save/load code on files of a scratch directory, below faulty file objects."""
import errno, io, os, random, shutil, sys, tempfile, types
from collections import Counter
import numpy as N
from .. import base, boot, engine, sched, simio, world
from ..base import Prop, dig, caused_by_injection, pick_event, profile_call
from ..boot import SEAMS

SRC = os.path.join(boot.REPO, "attitude", "test", "io.py")
FIX = os.path.join(boot.REPO, "attitude", "test", "fixtures")
FINDING = "save of several arrays: TypeError"
SPECIAL = [0.0, -0.0, 1 / 3, -1e-300, 5e-324, 1.7976931348623157e308, 1e16 + 2, 123456.78901234567, -2167.611572265619998]


class Faulty(io.FileIO):
    """A real file in the scratch directory whose system calls fail as planned."""

    def __init__(self, path, mode, fault, hit, tick):
        self.fault, self.hit, self.tick, self.done = fault, hit, tick, 0
        super().__init__(path, mode)

    def readinto(self, b):
        self.tick("read")
        n = len(b)
        f = self.fault.get("read")
        if f:
            if self.done >= f[0]:
                self.hit("read error")
                raise simio.io_error(f[1])
            n = min(n, f[0] - self.done)
        c = self.fault.get("chunk")
        if c and n > c:
            n = c
            self.hit("short read")
        d = super().read(n)
        b[:len(d)] = d
        self.done += len(d)
        return len(d)

    def readall(self):
        out = b""
        while True:
            b = bytearray(65536)
            n = self.readinto(b)
            if not n:
                return out
            out += bytes(b[:n])

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        return bytes(b[:self.readinto(b)])

    def write(self, b):
        self.tick("write")
        b = bytes(b)
        n = len(b)
        f = self.fault.get("write")
        if f:
            if self.done >= f[0]:
                self.hit("disk full" if f[1] == errno.ENOSPC else "write error")
                raise simio.io_error(f[1])
            n = min(n, f[0] - self.done)
        c = self.fault.get("chunk")
        if c and n > c:
            n = c
            self.hit("short write")
        n = super().write(b[:n])
        self.done += n
        return n

    def close(self):
        if not self.closed:
            w = self.writable()
            super().close()
            if w and self.fault.get("close"):
                self.hit("error on close")
                raise simio.io_error(self.fault["close"])


def array(spec):
    rs = N.random.RandomState(spec["seed"])
    n = spec["n"]
    a = rs.randn(n, 3) * 10.0 ** rs.randint(-6, 7, (n, 3))
    if spec["how"] == "special":
        a.flat[:] = [SPECIAL[i] for i in rs.randint(0, len(SPECIAL), 3 * n)]
    elif spec["how"] == "grid":
        a = N.round(a, 2)
    elif spec["how"] == "F":
        a = N.asfortranarray(a)
    elif spec["how"] == "view":
        a = N.repeat(a, 2, axis=0)[::2]
    return a


def text(arrays):
    """An independent writer of the format."""
    return "---\n".join("".join(" ".join(repr(float(x)) for x in r) + "\n" for r in a) for a in arrays).encode()


def parse(data):
    out = [[]]
    for line in data.decode().splitlines():
        if line.strip() == "---":
            out.append([])
        elif line.strip():
            out[-1].append([float(x) for x in line.split()])
    out = [N.array(a) for a in out]
    return out[0] if len(out) == 1 else out


def same(got, want):
    if isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            return "%d arrays expected, %s came back" % (len(want), "%d" % len(got) if isinstance(got, list) else "a single array")
        for i, (g, w) in enumerate(zip(got, want)):
            d = same(g, w)
            if d:
                return "array %d: %s" % (i, d)
        return None
    if isinstance(got, list):
        return "a list of %d arrays came back for a single one" % len(got)
    if got.shape != want.shape:
        return "shape %r came back for %r" % (got.shape, want.shape)
    if not N.array_equal(got, want):
        return "%d of %d values differ" % (int((got != want).sum()), want.size)
    return None


def store(scratch):
    """The real module, located in the scratch directory."""
    d = os.path.join(scratch, "attitude", "test")
    os.makedirs(os.path.join(d, "fixtures"))
    with open(SRC) as f:
        src = f.read()
    path = os.path.join(d, "io.py")
    m = types.ModuleType("attitude.test.io")
    m.__file__, m.__package__ = path, "attitude.test"
    code = compile(src, SRC, "exec")
    exec(code, m.__dict__)

    def codes(c):
        boot.CODES.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                codes(k)
    if not sched._installed:
        codes(code)
    return m, os.path.join(d, "fixtures")


class C19(Prop):
    id = "C19"
    per_chunk = 40
    chunks_quick = 32
    chunks_thorough = 1500
    rule = ("histories of 3-14 saves, loads and foreign writes over 4 names and the committed fixtures, 1-2 threads on separate names, arrays "
            "of 2-60 points incl. extreme values and other memory layouts, open/read/write/close errors, full disk at any byte, short reads and "
            "writes, slow I/O, interrupts; distinct = different (steps, faults); non-trivial = a load checked against a model value")
    real = ["attitude/test/io.py", "numpy savetxt/loadtxt", "io buffering layers", "the file system (scratch directory)"]
    stubs = ["system calls of opened files (faulty file object)", "thread scheduling and aborts"]
    assumptions = Prop.assumptions + ["arrays have the shape of plane coordinates, at least 2 x 3"]
    shrinkable = ("preempt", "fault", "ops")

    def setup(self):
        self.known = {f["match"] for f in engine.load_findings() if f.get("property") == self.id and f.get("status") == "known"}
        self.fixtures = {}
        for n in sorted(os.listdir(FIX)):
            if n.endswith(".txt"):
                with open(os.path.join(FIX, n), "rb") as f:
                    self.fixtures[n[:-4]] = f.read()

    def make_pool(self, rng, tier):
        return [dict(seed=rng.randrange(1 << 30), n=rng.choice([2, 3, 3, 5, 8, 20, 60]), how=rng.choice(["plain", "plain", "special", "grid", "F", "view"]))
                for _ in range(8)]

    def reference(self, key):
        return dict(ev=60, hot=[])

    def gen(self, rng, env):
        nt = rng.choice([1, 1, 1, 2])
        plan = dict(ops=[], preempt=[], fault=[])
        for t in range(nt):
            names = ["plane%d" % t, "other%d" % t]
            for _ in range(base.deep(rng.randint(3, 14) if nt == 1 else rng.randint(2, 6))):
                r = rng.random()
                if r < .45:
                    k = rng.choice([1, 1, 1, 1, 1, 2, 3])
                    o = dict(k="save", arrays=[rng.choice(env.pool) for _ in range(k)])
                elif r < .9:
                    o = dict(k="load")
                else:
                    o = dict(k="foreign", arrays=[rng.choice(env.pool) for _ in range(rng.choice([1, 2, 3]))])
                o.update(t=t, id=len(plan["ops"]), name=rng.choice(names))
                if o["k"] == "load" and rng.random() < .3:
                    o["name"] = rng.choice(sorted(self.fixtures))
                if rng.random() < .2:
                    o["dirs"] = rng.choice(["a/", "/x/y/"])       # only the last part of a name counts
                if o["k"] != "foreign" and rng.random() < .45:
                    size = 78 * 8
                    z = rng.choice(["open", "io", "io", "io", "chunk", "close", "slow"])
                    if z == "open":
                        o["io"] = dict(open=rng.choice([errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EIO]))
                    elif z == "io":
                        o["io"] = {"write" if o["k"] == "save" else "read": [
                            rng.choice([0, 1, 77, rng.randrange(size), rng.randrange(5000)]), rng.choice([errno.ENOSPC, errno.EIO])]}
                    elif z == "chunk":
                        o["io"] = dict(chunk=rng.choice([1, 7, 100, 1000]))
                    elif z == "close":
                        o["io"] = dict(close=rng.choice([errno.EIO, errno.ENOSPC]))
                    elif nt > 1:
                        o["io"] = dict(stall=1 - t)
                plan["ops"].append(o)
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            o = rng.choice(plan["ops"])
            plan["fault"].append([o["t"], o["id"], rng.randint(1, 90), rng.choice(["KeyboardInterrupt", "MemoryError"])])
        if nt > 1:
            for _ in range(rng.choice([1, 2, 3])):
                o = rng.choice(plan["ops"])
                plan["preempt"].append([o["t"], o["id"], rng.randint(1, 90), 1 - o["t"]])
        return plan

    def run(self, plan, R):
        world.fresh("run")
        scratch = tempfile.mkdtemp(prefix="dst-c19-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        try:
            return self.run_in(plan, os.path.realpath(scratch))
        finally:
            SEAMS.open_hook = None
            shutil.rmtree(scratch, ignore_errors=True)

    def run_in(self, plan, scratch):
        io_, fix = store(scratch)
        stats, log, S = Counter(), [], dict(v=None)
        model = {}
        for n, b in self.fixtures.items():
            with open(os.path.join(fix, n + ".txt"), "wb") as f:
                f.write(b)
            model[n] = parse(b)
        cur = {}

        def fail(cls, msg):
            S["v"] = S["v"] or dict(cls=cls, msg=msg)

        def hit(o, what):
            o["hit"] = True
            stats["fault:" + what] += 1

        def hook(real_open, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if isinstance(file, int):
                return None
            path = os.path.realpath(os.fspath(file))
            if path.startswith(boot.REPO + os.sep) and any(c in mode for c in "wax+"):
                raise engine.HarnessError("attempt to write into the repository: %s" % path)
            t = sim.current_managed()
            rec = cur.get(t.idx) if t is not None else None
            if rec is None or not path.startswith(scratch):
                return None
            f = rec["op"].get("io") or {}
            if f.get("open"):
                hit(rec, "open error")
                raise simio.io_error(f["open"])

            def tick(what):
                if "stall" in f and not rec.get("stalled"):
                    rec["stalled"] = True
                    if sim.stall(t, f["stall"], what):
                        stats["fault:slow I/O"] += 1
            raw = Faulty(path, mode.replace("b", "").replace("t", ""), f, lambda w: hit(rec, w), tick)
            if buffering == 0:
                return raw
            size = buffering if buffering > 1 else 8192
            b = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedReader(raw, size) if "r" in mode else io.BufferedWriter(raw, size)
            return b if "b" in mode else io.TextIOWrapper(b, encoding or "utf-8", errors, newline)

        def body_for(tid):
            def body(t):
                for o in plan["ops"]:
                    if o["t"] != tid:
                        continue
                    name = o.get("dirs", "") + o["name"]
                    arrays = [array(a) for a in o.get("arrays", [])]
                    if o["k"] == "foreign":
                        with open(os.path.join(fix, o["name"] + ".txt"), "wb") as f:
                            f.write(text(arrays))
                        model[o["name"]] = arrays if len(arrays) > 1 else arrays[0]
                        continue
                    keep = [a.copy() for a in arrays]
                    rec = dict(op=o)
                    cur[tid] = rec
                    exc = out = None
                    sim.begin(t, o["id"])
                    try:
                        if o["k"] == "save":
                            io_.save_test_plane(name, *arrays)
                        else:
                            out = io_.load_test_plane(name)
                    except BaseException as e:
                        exc = e
                    sim.end(t)
                    cur[tid] = None
                    stats["ops"] += 1
                    stats["comparisons"] += 1
                    inj = exc is not None and (caused_by_injection(exc) or rec.get("hit"))
                    log.append((o["id"], o["k"], type(exc).__name__ if exc else "ok", bool(rec.get("hit"))))
                    if o["k"] == "save":
                        if any(not N.array_equal(a, b) for a, b in zip(arrays, keep)):
                            fail("input", "saving modified the caller's arrays")
                        failing = rec.get("hit") and not set(o["io"]) <= {"chunk", "stall"}
                        if exc is None:
                            if failing:
                                fail("silent", "saving %d arrays reported success although the disk failed (%s)" % (len(arrays), o["io"]))
                            model[o["name"]] = keep if len(keep) > 1 else keep[0]
                        else:
                            model[o["name"]] = None        # nothing promised
                            if not inj:
                                if len(arrays) > 1 and isinstance(exc, TypeError) and "bytes-like" in str(exc) and FINDING in self.known:
                                    stats["probe:known finding met"] += 1
                                else:
                                    fail("refused", "saving %d arrays raised %s: %s" % (len(arrays), type(exc).__name__, exc))
                    else:
                        want = model.get(o["name"])
                        failing = rec.get("hit") and not set(o["io"]) <= {"chunk", "stall", "close"}
                        if exc is None and failing:
                            fail("silent", "loading reported success although reading failed (%s)" % o["io"])
                        elif want is None:
                            continue
                        elif exc is not None:
                            if not inj:
                                fail("load", "loading a saved plane raised %s: %s" % (type(exc).__name__, exc))
                        else:
                            stats["probe:loads checked"] += 1
                            d = same(out, want)
                            if d:
                                fail("differs", "a loaded plane differs from what was saved: %s" % d)
            return body
        nt = max([o["t"] for o in plan["ops"]] + [0]) + 1
        sim = sched.Sim([body_for(t) for t in range(nt)], plan["preempt"], plan["fault"])
        SEAMS.open_hook = hook
        sim.run()
        SEAMS.open_hook = None
        stats["fault:preemption"] += sim.switches
        for k, v in sim.fired.items():
            stats["fault:" + k] += v
        stats["events"] += sim.total_events
        return dict(violation=S["v"], stats=stats, log=dig(sim.digest(), log), key=dig(plan), nontrivial=stats["probe:loads checked"] > 0)

    def known_checks(self):
        def try_it():
            scratch = tempfile.mkdtemp(prefix="dst-c19-")
            try:
                io_, fix = store(scratch)
                try:
                    io_.save_test_plane("k", N.zeros((3, 3)), N.ones((3, 3)))
                except TypeError as e:
                    return "bytes-like" in str(e)
                return False
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        st, ok = engine.in_child(try_it)
        yield FINDING, st == "ok" and ok


PROP = C19()
