"""Simulated notebook sessions: a page (front end), and a sequence of kernels each running the real package.

plan: epochs [ {ops:[{id,t,k,...}], preempt, fault, clock, seeded} ]; every epoch is a new kernel (a new process whose
package was just imported) talking to the same page.  ops: init | plot | seed.
"""
import errno, json, os, random, subprocess
from collections import Counter
import numpy as N
from . import base, boot, canon, engine, sched, simio, subjects, world
from .base import Prop, dig, caused_by_injection, pick_event, profile_call
from .boot import SEAMS

LIBFILE = os.path.join(boot.REPO, "frontend", "packages", "attitude", "lib", "attitude-ui.js")
HOSTILE = ["it's", 'say "x"', "back\\slash", "</script><script>boom()</script>", "<!-- <script>", "a\nb\r\n", "\u2028\u2029", "é漢字😀",
           "<<<hash>>>", "<<<data>>>", "\\u003c", "\\'", "'); boom(); ('", "${x}`", "%s {0}", "", "\x00\x07", "\\", "\\\\'", "]]>", "&lt;&amp;",
           "]}", "null", "</SCRIPT >", "#fff", "\ud83d", "NaN", "Infinity at -Infinity", "true", "None", "$1 $& {{x}}"]


class Lost(Exception):
    """The front end could not be reached."""


LOST = {b.__name__: type("Lost" + b.__name__, (Lost, b), {}) for b in (
    ConnectionError, OSError, RuntimeError, ValueError, AttributeError, ImportError, NotImplementedError, TypeError, KeyError, BrokenPipeError,
    FileNotFoundError, NameError)}
LOST["Exception"] = Lost


def gen_record(rng):
    def val(depth=0):
        r = rng.random()
        if r < .5:
            return rng.choice(HOSTILE)
        if r < .6:
            return rng.choice([True, False, None])
        if r < .75:
            return rng.choice([0, -1, 1 << 40, 3.5, -1e-12, 1e300, float("nan"), float("inf"), -float("inf")])
        if depth < 2 and r < .88:
            return [val(depth + 1) for _ in range(rng.randrange(3))]
        if depth < 2:
            return {rng.choice(["k", "it's", "</script>", "é"]): val(depth + 1)}
        return "x"
    d = dict(uid=rng.choice(HOSTILE + ["abcd1234"]), strike=rng.uniform(0, 360), dip=rng.uniform(0, 90), rake=rng.choice([10., 10., float("nan")]), name=rng.choice(HOSTILE))
    for _ in range(rng.randrange(3)):
        d[rng.choice(["color", "notes", "it's", "<b>"])] = val()
    return d


class NotebookProp(Prop):
    per_chunk = 16
    chunks_quick = 48
    real = ["attitude.display.nbextension and all code it calls", "IPython display machinery", "io buffering layers", "CPython threads"]
    stubs = ["thread scheduling and aborts (sys.monitoring)", "the raw file below open()", "display publisher and browser page", "entropy", "clock"]
    p_init = .5
    shrinkable = ("epochs",)

    def make_pool(self, rng, tier):
        return [subjects.gen_subject(rng, ["pca", "pca", "saved", "group", "recon", "weighted"]) for _ in range(6)]

    # ---------------------------------------------------------------- generation
    def gen(self, rng, env):
        plan = dict(subjects=[rng.choice(env.pool) for _ in range(rng.choice([1, 2, 3]))], epochs=[])
        for e in range(rng.choice([1, 1, 2, 2, 3])):
            plan["epochs"].append(self.gen_epoch(rng, env, plan))
        return plan

    def gen_plot(self, rng, plan):
        n = rng.choice([0, 1, 1, 2, 3, 5])
        items = []
        for _ in range(n):
            if rng.random() < .6:
                items.append(["s", rng.randrange(len(plan["subjects"]))])
            else:
                items.append(["r", gen_record(rng)])
        how = rng.choice(["list", "list", "tuple", "one"])
        if how == "one":
            items = items[:1]
            if not items:
                how = "list"
        return dict(k="plot", items=items, how=how)

    def gen_epoch(self, rng, env, plan):
        nt = rng.choice([1, 1, 2, 2, 3])
        ep = dict(ops=[], preempt=[], fault=[], clock=rng.choice([1e-3, 0, 3.0]), t0=rng.choice([1.7e9, 1.7e9 + 5, 1.6e9]))
        i = 0
        for t in range(nt):
            for _ in range(base.deep(rng.randint(1, 4))):
                r = rng.random()
                if r < self.p_init:
                    o = dict(k="init")
                    if rng.random() < .35:
                        o["io"] = self.gen_io(rng)
                elif r < .94:
                    o = self.gen_plot(rng, plan)
                else:
                    o = dict(k="seed")
                if o["k"] != "seed" and rng.random() < .3:
                    o["pub"] = rng.choice(["before", "before", "after"])
                    o["lost"] = rng.choice(sorted(LOST))
                if nt > 1 and o["k"] != "seed" and rng.random() < .35:
                    o["stall"] = [rng.choice(["publish", "publish", "read"]), rng.choice([x for x in range(nt) if x != t])]
                o.update(id=i, t=t)
                i += 1
                ep["ops"].append(o)
        act = [o for o in ep["ops"] if o["k"] != "seed"]
        if act and rng.random() < .3:
            for _ in range(rng.choice([1, 1, 2])):
                o = rng.choice(act)
                ref = self.evref(env, plan, o)
                if ref["ev"]:
                    ep["fault"].append([o["t"], o["id"], pick_event(rng, ref, True), rng.choice(["KeyboardInterrupt", "MemoryError"])])
        if nt > 1 and act:
            for _ in range(rng.choice([1, 2, 3])):
                o = rng.choice(act)
                ref = self.evref(env, plan, o)
                if ref["ev"]:
                    ep["preempt"].append([o["t"], o["id"], rng.randint(0, 2) if rng.random() < .1 else pick_event(rng, ref),
                                          rng.choice([x for x in range(nt) if x != o["t"]])])
        return ep

    def gen_io(self, rng):
        r = rng.random()
        if r < .35:
            return dict(open=rng.choice([errno.ENOENT, errno.EACCES, errno.EMFILE, errno.EIO, errno.EISDIR, errno.ENOTDIR, errno.EPERM, errno.ESTALE, errno.ETIMEDOUT, errno.ENOMEM]))
        if r < .7:
            return dict(read=[rng.choice([0, 1, 8192, 65536, rng.randrange(self.libsize)]), rng.choice([errno.EIO, errno.EIO, errno.ESTALE, errno.EISDIR, errno.ENOENT, errno.ETIMEDOUT])])
        return dict(chunk=rng.choice([700, 4096, 50000, 300000]))

    # ---------------------------------------------------------------- references
    def setup(self):
        with open(LIBFILE, "rb") as f:
            self.libbytes = f.read()
        self.lib = self.libbytes.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")
        self.libsize = len(self.libbytes)

    def evref(self, env, plan, o):
        if o["k"] == "init":
            return env.refs.get(("init",))
        return env.refs.get(("plot", json.dumps([plan["subjects"], o["items"], o["how"]])))

    def reference(self, key):
        world.fresh("ref")
        from attitude.display import nbextension as nb
        if key[0] == "init":
            SEAMS.publish_hook = lambda d: None
            out, ev, hot, k = profile_call(lambda: nb.init_notebook_mode())
            return dict(out=out, ev=ev, hot=hot, k=k)
        if key[0] == "map":
            o = subjects.build(json.loads(key[1]))
            return dict(out=json.loads(json.dumps(o.to_mapping())))
        subs, items, how = json.loads(key[1])
        arg = self.argument([subjects.build(s) for s in subs], items, how)
        out, ev, hot, k = profile_call(lambda: nb.plot_interactive(arg))
        return dict(out=out, ev=ev, hot=hot, k=k)

    def refs(self, plan):
        return [("map", json.dumps(s, sort_keys=True)) for s in plan["subjects"]]

    def argument(self, objs, items, how):
        xs = [objs[i] if k == "s" else json.loads(json.dumps(i)) for k, i in items]
        return xs[0] if how == "one" else tuple(xs) if how == "tuple" else xs

    # ---------------------------------------------------------------- execution
    def run(self, plan, R):
        stats = Counter()
        page, viol, log = [], None, []
        for e, ep in enumerate(plan["epochs"]):
            st, out = engine.in_child(self.kernel, plan, e)
            if st != "ok":
                raise engine.HarnessError("kernel %s: %s" % (st, out))
            stats.update(out["stats"])
            log.append(out["log"])
            page += out["page"]
            viol = viol or out["violation"]
            stats["probe:kernels"] += 1
        if not viol and self.check_page:
            viol = self.page_check(plan, R, page, stats)
        return dict(violation=viol, stats=stats, log=dig(log), key=dig(plan["subjects"], plan["epochs"]),
                    nontrivial=stats["ops"] > 0)

    check_page = True

    def kernel(self, plan, e):
        from attitude.display import nbextension as nb
        ep = plan["epochs"][e]
        world.fresh("kernel%d" % e)
        random.seed(7)
        N.random.seed(7)
        SEAMS.clock = world.Clock(ep["t0"], ep["clock"])
        stats, log, page = Counter(), [], []
        objs = [subjects.build(s) for s in plan["subjects"]]
        S = dict(v=None, delivered=0, done=False, order=0)

        def fail(cls, msg):
            if S["v"] is None:
                S["v"] = dict(cls=cls, msg=msg)
        cur = {}                      # thread -> op record of the call in flight

        def mine():
            t = sim.current_managed()
            return (t, cur.get(t.idx)) if t is not None else (None, None)

        def publish(data):
            t, o = mine()
            if o is None:
                return
            o["n"] += 1
            if o["op"].get("stall", [None])[0] == "publish" and not o.get("stalled"):
                o["stalled"] = True
                if sim.stall(t, o["op"]["stall"][1], "publish"):
                    stats["fault:slow delivery"] += 1
            how = o["op"].get("pub")
            if how == "before":
                stats["fault:delivery failed"] += 1
                raise LOST[o["op"].get("lost", "Exception")]("front end unreachable")
            msg = dict(data)
            if any(isinstance(v, str) and self.lib in v for v in msg.values()):
                S["delivered"] += 1
                o["lib"] += 1
            o["shown"].append(msg)
            if how == "after":
                stats["fault:delivery reported as failed"] += 1
                raise LOST[o["op"].get("lost", "Exception")]("front end unreachable")

        def fault_for():
            t, o = mine()
            return o["op"].get("io") if o is not None else None

        def tick(raw, what):
            t, o = mine()
            if o is not None and o["op"].get("stall", [None])[0] == "read" and not o.get("stalled"):
                o["stalled"] = True
                if sim.stall(t, o["op"]["stall"][1], "read"):
                    stats["fault:slow read"] += 1
        libdir = os.path.dirname(LIBFILE)
        disk = simio.Disk(lambda p: p.startswith(libdir), stats, fault_for, tick)
        disk.files[LIBFILE] = bytearray(self.libbytes)
        for n in sorted(os.listdir(libdir)):
            p = os.path.join(libdir, n)
            if p not in disk.files and os.path.isfile(p):
                with open(p, "rb") as f:
                    disk.files[p] = bytearray(f.read())
        SEAMS.open_hook = disk.hook
        SEAMS.publish_hook = publish

        def body_for(tid):
            ops_ = [o for o in ep["ops"] if o["t"] == tid]

            def body(t):
                for o in ops_:
                    if o["k"] == "seed":
                        random.seed(7)
                        N.random.seed(7)
                        continue
                    rec = dict(op=o, n=0, lib=0, shown=[])
                    arg = self.argument(objs, o["items"], o["how"]) if o["k"] == "plot" else None
                    done_before = S["done"]
                    cur[tid] = rec
                    exc = None
                    sim.begin(t, o["id"])
                    try:
                        if o["k"] == "init":
                            nb.init_notebook_mode()
                        else:
                            nb.plot_interactive(arg)
                    except BaseException as x:
                        exc = x
                    sim.end(t)
                    cur[tid] = None
                    stats["ops"] += 1
                    stats["comparisons"] += 1
                    inj = exc is not None and (caused_by_injection(exc) or isinstance(exc, (Lost, simio.InjectedIO)) or
                                               isinstance(exc.__cause__ or exc.__context__, (Lost, simio.InjectedIO)))
                    log.append((o["id"], type(exc).__name__ if exc else "ok", rec["n"], rec["lib"]))
                    self.judge(S, stats, fail, o, rec, exc, inj, done_before)
                    if o["k"] == "init" and exc is None:
                        S["done"] = True
                    for m in rec["shown"]:
                        if o["k"] == "plot":
                            page.append(dict(epoch=e, op=o["id"], html=m.get("text/html"), failed=exc is not None))
            return body
        nt = max([o["t"] for o in ep["ops"]] + [0]) + 1
        sim = sched.Sim([body_for(t) for t in range(nt)], ep["preempt"], ep["fault"])
        sim.run()
        SEAMS.open_hook = None
        stats["fault:preemption"] += sim.switches
        for k, v in sim.fired.items():
            stats["fault:" + k] += v
        stats["events"] += sim.total_events
        if sim.deadlock:
            fail("deadlock", "callers block each other forever")
        return dict(stats=stats, log=dig(sim.digest(), log), page=page, violation=S["v"])

    def judge(self, S, stats, fail, o, rec, exc, inj, done_before):
        raise NotImplementedError

    def page_check(self, plan, R, page, stats):
        return None

    def shrink(self, plan):
        eps = plan["epochs"]
        for i in range(len(eps)):
            if len(eps) > 1:
                yield dict(plan, epochs=eps[:i] + eps[i + 1:])
        for i, ep in enumerate(eps):
            for f in ("fault", "preempt", "ops"):
                for j in range(len(ep[f])):
                    yield dict(plan, epochs=eps[:i] + [dict(ep, **{f: ep[f][:j] + ep[f][j + 1:]})] + eps[i + 1:])
            for j, o in enumerate(ep["ops"]):
                for k in ("io", "pub", "stall"):
                    if k in o:
                        o2 = {a: b for a, b in o.items() if a != k}
                        yield dict(plan, epochs=eps[:i] + [dict(ep, ops=ep["ops"][:j] + [o2] + ep["ops"][j + 1:])] + eps[i + 1:])
                if o["k"] == "plot" and len(o["items"]) > 1:
                    for q in range(len(o["items"])):
                        o2 = dict(o, items=o["items"][:q] + o["items"][q + 1:])
                        yield dict(plan, epochs=eps[:i] + [dict(ep, ops=ep["ops"][:j] + [o2] + ep["ops"][j + 1:])] + eps[i + 1:])
